// A small property-based testing engine.
//
// A property is three things: a generator that turns a sequence of choices into
// a Case, a check that runs the Case against the code under test and an oracle,
// and a rule that says which Cases are non-trivial.  The choices come either
// from a pseudo random stream (one independent stream per case, so any case can
// be regenerated from its seed and index) or from the bytes libFuzzer mutates.
// A Case is plain data: a list of operations with integer and string operands.
// Checks are total over Cases (operands out of range are folded into range), so
// the shrinker may drop and shorten anything.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

typedef unsigned long long u64;
typedef long long i64;

struct Op {
  std::string k;
  std::vector<i64> n;
  std::vector<std::string> s;
  Op() {}
  Op(const std::string& k_, std::vector<i64> n_ = {}, std::vector<std::string> s_ = {})
    : k(k_), n(std::move(n_)), s(std::move(s_)) {}
  i64 num(size_t i) const { return i < n.size() ? n[i] : 0; }
  const std::string& str(size_t i) const {
    static const std::string empty;
    return i < s.size() ? s[i] : empty;
  }
};
typedef std::vector<Op> Case;

// ---------------------------------------------------------------- text form
std::string quote(const std::string& s);
std::string toText(const Case& c);
bool fromText(const std::string& t, Case& c);

inline u64 mix(u64 z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline u64 hashBytes(const void* p, size_t n, u64 h = 1469598103934665603ull) {
  const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
  return mix(h ^ n);
}

// ------------------------------------------------------------ choice source
class Src {
public:
  Src(u64 seed, u64 index, int size) : m_Data(0), m_N(0), m_I(0),
    m_State(mix(mix(seed) ^ mix(index * 0x632be59bd9b4e019ull + 7))), m_Size(size) {}
  Src(const uint8_t* d, size_t n, int size) : m_Data(d), m_N(n), m_I(0), m_State(0), m_Size(size) {}

  bool fromFuzzer() const { return m_Data != 0; }
  size_t left() const { return m_Data ? m_N - m_I : (size_t)-1; }
  int size() const { return m_Size; }
  uint8_t byte() {
    if (m_Data) return m_I < m_N ? m_Data[m_I++] : 0;
    if (m_Have == 0) { m_State += 0x9e3779b97f4a7c15ull; m_Buf = mix(m_State); m_Have = 8; }
    uint8_t b = (uint8_t)m_Buf; m_Buf >>= 8; --m_Have; return b;
  }
  u64 bits(int nbytes) { u64 v = 0; while (nbytes--) v = v << 8 | byte(); return v; }
  // uniform in [0, m)
  u64 below(u64 m) {
    if (m <= 1) return 0;
    if (m <= 256) return bits(m_Data ? 1 : 2) % m;
    if (m <= 65536) return bits(m_Data ? 2 : 4) % m;
    return bits(8) % m;
  }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo) + 1); }
  bool p(int percent) { return (int)below(100) < percent; }   // 0 bytes => true
  bool rare(int percent) { return (int)below(100) >= 100 - percent; } // 0 bytes => false
  // a length: mostly small, sometimes up to max
  size_t len(size_t max) {
    size_t cap;
    switch (below(8)) {
      case 0: case 1: case 2: cap = 3; break;
      case 3: case 4: case 5: cap = 12; break;
      case 6: cap = 40; break;
      default: cap = max; break;
    }
    if (cap > max) cap = max;
    return (size_t)below(cap + 1);
  }
  template<class T> const T& pick(const std::vector<T>& v) { return v[(size_t)below(v.size())]; }
  size_t weighted(std::initializer_list<int> w) {
    int t = 0; for (int x : w) t += x;
    int r = (int)below(t); size_t i = 0;
    for (int x : w) { if (r < x) return i; r -= x; ++i; }
    return 0;
  }
private:
  const uint8_t* m_Data; size_t m_N, m_I; u64 m_State; int m_Size;
  u64 m_Buf = 0; int m_Have = 0;
};

// ------------------------------------------------------------------ verdicts
struct Fail { std::string what; };
struct Stats {
  u64 evaluations = 0, nontrivial = 0;
  std::map<std::string, u64> labels;
  std::unordered_set<u64> distinct;
  std::vector<std::string> samples;
};
Stats& stats();

// Per-case context handed to the check.
class Ctx {
public:
  bool nontrivial = false;
  bool verbose = false;
  std::vector<std::string> labels;
  void label(const char* l) { labels.push_back(l); }
  void label(const std::string& l) { labels.push_back(l); }
};

[[noreturn]] void fail(const std::string& what);

#define PBT_CHECK(COND, MSG) \
  do { if (!(COND)) { std::ostringstream pbt_os; pbt_os << "[" #COND "] " << MSG; \
       ::pbt::fail(pbt_os.str()); } } while (0)

// -------------------------------------------------------------- the property
struct Property {
  const char* id;
  const char* rule;                       // which cases are non-trivial
  std::function<Case(Src&)> generate;
  std::function<void(const Case&, Ctx&)> check;
  std::function<void()> init;             // once per process, may be empty
};
const Property& property();               // defined by each harness
extern bool g_Steady;                     // no case runs with other answers to what is asked for outside the arguments (see timeshift.cpp)

bool runOne(const Case& c, Ctx& ctx, std::string& why); // true: held

inline bool contains(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }

// size of the generated structure for a case index
inline int sizeFor(u64 index) { static const int s[] = {4, 10, 25, 60, 100, 40, 15, 6}; return s[index % 8]; }

} // namespace pbt
