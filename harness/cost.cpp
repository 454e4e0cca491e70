// C28: the work and the memory grow in proportion to what is asked.
// Every case is a shape that can be made of any size: a document, or a program on a container.  It is
// carried out at one size, and at 32 times that size; processor time, memory asked for and memory held
// may then be about 32 times as much, with much to spare, and never a multiple of that.
#include <malloc.h>
#include <dlfcn.h>
#include <time.h>
#include <cstdint>
#include <adt/HashTable.h>
#include <adt/StringHashTable.h>
#include <adt/StringMap.h>
#include <adt/Vector.h>
#include "json_eni.hpp"

extern "C" void* __libc_malloc(size_t); extern "C" void* __libc_calloc(size_t, size_t); extern "C" void* __libc_realloc(void*, size_t); extern "C" void __libc_free(void*);
namespace mem {
const size_t Limit = (size_t)3 << 30;
size_t asked = 0, live = 0, peak = 0;   // one thread
void* in(void* p) { if (p) { size_t n = malloc_usable_size(p); asked += n; live += n; if (live > peak) peak = live; } return p; }
void out(void* p) { if (p) live -= malloc_usable_size(p); }
bool more(size_t n) { return n < Limit && live < Limit; }
}
extern "C" void* malloc(size_t n) { return mem::more(n) ? mem::in(__libc_malloc(n)) : 0; }
extern "C" void* calloc(size_t a, size_t b) { return mem::more(a) && mem::more(b) ? mem::in(__libc_calloc(a, b)) : 0; }
extern "C" void* realloc(void* p, size_t n) { if (!mem::more(n)) return 0; mem::out(p); return mem::in(__libc_realloc(p, n)); }
extern "C" void free(void* p) { mem::out(p); __libc_free(p); }

#define OP(n) char* n##_run(char*); uint64_t* n##_gas(char*);
extern "C" { OP(reverse) OP(json) OP(scrypt) OP(rsa_encrypt) OP(rsa_decrypt) }

using namespace pbt;
namespace {
const size_t Times = 32;
double cpu() { timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Used { double secs = 0; size_t asked = 0, held = 0; };
struct Meter {
  double t; size_t a, l;
  Meter() : a(mem::asked), l(mem::live) { mem::peak = mem::live; t = cpu(); }
  Used stop() { Used u; u.secs = cpu() - t; u.asked = mem::asked - a; u.held = mem::peak - l; return u; }
};
// how much more may be held: times the content, or 0 when only the work grows
void judge(const std::string& what, const Used& s, const Used& b, double content) {
  const double slack = 6;
  PBT_CHECK(b.asked <= s.asked * Times * slack + (1 << 16), what << " asks for " << b.asked << " bytes in all, and for " << s.asked << " at a size " << Times << " times smaller");
  double most = s.held * (content < 1 ? 1 : content) * slack + (1 << 16);
  PBT_CHECK(b.held <= most, what << " holds up to " << b.held << " bytes, and " << s.held << " at a size " << Times << " times smaller, where the contents are " << content << " times smaller");
}
// ------------------------------------------------------------- documents
std::string times(const std::string& s, size_t n) { std::string r; r.reserve(s.size() * n); while (n--) r += s; return r; }
std::string escaped(const std::string& s) { Src w(1, hashBytes(s.data(), s.size()), 4); std::string t = jref::writeStr(&w, s, s.find((char)0) == std::string::npos); return t.substr(1, t.size() - 2); }
// keys whose hashes are spread evenly, which is all the functions of libeni ask for
std::string keyOf(const Op& o, size_t i) {
  char b[20]; snprintf(b, sizeof b, "%016llx", mix(i * 77 + 5));
  switch ((u64)o.num(2) % 4) {
    case 0: return b;
    case 1: return o.str(0) + b;
    case 2: return std::string(60, 'p') + b;
    default: return b + 4;
  }
}
// the text of piece i and what is inside it; piece 0 is the one that grows
std::string text(const Case& c, size_t i, size_t n) {
  if (i >= c.size()) return "7";
  const Op& o = c[i];
  if (i > 1) n = 1 + (u64)o.num(1) % 3;   // piece 0 says what is done, piece 1 grows, the others stay
  std::string in;
  if (o.k != "str" && o.k != "num") in = text(c, i + 1, 0);
  if (o.k == "arr") { std::string r = "["; r.reserve(n * (in.size() + 1) + 2); for (size_t k = 0; k < n; ++k) { if (k) r += ','; r += in; } return r + "]"; }
  if (o.k == "obj") { std::string r = "{"; for (size_t k = 0; k < n; ++k) { if (k) r += ','; r += '"' + (o.num(3) & 1 ? o.num(3) & 2 ? escaped(keyOf(o, 1)) : escaped(keyOf(o, k % 10)) : escaped(keyOf(o, k))) + "\":"; r += in; } return r + "}"; }
  if (o.k == "nest") {
    static const char *open[] = {"[", "{\"k\":", "[1,", "{\"a\":true,\"k\":", "[\"s\",[],"}, *close[] = {"]", "}", "]", "}", ",{}]"};
    if (n > 4000) n = 4000;
    std::string a, b; for (size_t k = 0; k < n; ++k) { size_t w = o.num(3) & 1 ? (u64)o.num(2) % 5 : (k * 7 + (u64)o.num(2)) % 5; a += open[w]; b.insert(0, close[w]); }
    return a + in + b;
  }
  if (o.k == "str") return '"' + times(escaped(o.str(0).empty() ? "x" : o.str(0)), n) + '"';
  if (o.k == "num") return (o.num(2) & 1 ? "-" : "") + times("9", std::min<size_t>(n, o.num(3) & 4 ? n : 70));
  if (o.k == "key") return "{\"" + times(escaped(o.str(0).empty() ? "x" : o.str(0)), n) + "\":" + in + "}";
  if (o.k == "ws") { static const char w[] = " \t\n\r"; return times(std::string(1, w[(u64)o.num(2) % 4]), n) + in + times(" ", n); }
  return in;
}
class Null : public std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
class Own : public eni::EniBase {
public:
  Own(const std::string& t, i64 how) : eni::EniBase(t), m_How(how) {}
private:
  bool parse(const json::Array& a) override { if (m_How & 1) m_Kept = a; return true; }
  eni::Gas gas() const override { return 1; }
  bool run(json::Array& r) override { for (auto i = m_Kept.begin(); i != m_Kept.end(); ++i) { if (m_How & 2) r.emplace_back(*i); else r.push_back(*i); } return true; }
  i64 m_How; json::Array m_Kept;
};
void readAll(const json::Value& v, size_t& n) {
  ++n;
  if (v.isArray()) for (int i = 0; i < (int)v.toArray().size(); ++i) { const json::Value& x = v[i]; if (x.isArray() || x.isObject()) { if (n & 1) readAll(x, n); } else ++n; }
  else if (v.isObject()) { json::Object::const_iterator i = v.toObject().begin(), e = v.toObject().end(); for (; i != e; ++i) { const json::Value& x = v[std::string(i->key())]; if (&x != &i->value()) ++n; } }
}
const char* const Acts[] = {"reading", "printing", "copying", "assigning", "walking", "quoting for", "starting", "quoting (reverse) for", "quoting (json) for", "quoting (scrypt) for", "quoting (rsa_encrypt) for", "quoting (rsa_decrypt) for", "running (reverse) on", "building again"};
const size_t NumActs = sizeof Acts / sizeof *Acts;
json::Value built(const json::Value& v, u64 how) {
  if (v.isArray()) {
    json::Array a; for (auto i = v.toArray().begin(); i != v.toArray().end(); ++i) { if (how & 1) a.emplace_back(*i); else a.push_back(*i); }
    return json::Value(a);
  }
  if (v.isObject()) {
    json::Object o; json::Object::const_iterator i = v.toObject().begin(), e = v.toObject().end();
    for (; i != e; ++i) o[i->key()] = i->value();
    return json::Value(o);
  }
  return v;
}
Used once(size_t act, const std::string& t, u64 how) {
  Null nb; std::ostream null(&nb);
  if (act == 0) { Meter m; { json::Parser p(t); (void)(bool)p; } return m.stop(); }
  if (act <= 4 || act == 13) {
    json::Parser p(t); if (!p) return Used();
    const json::Value& v = p.getRoot(); json::Value w;
    Meter m;
    switch (act) {
      case 1: v.print(null); break;
      case 2: { json::Value c(v), d(std::move(c)); break; }
      case 3: { json::Value c(true); c = v; c = v; w = c; w = json::Value(false); break; }
      case 4: { size_t n = 0; readAll(v, n); break; }
      default: { json::Value b = built(v, how); }
    }
    return m.stop();
  }
  std::vector<char> b(t.begin(), t.end()); b.push_back(0);
  Meter m;
  switch (act) {
    case 5: { Own o(t, (i64)how); o.getGas(); break; }
    case 6: { Own o(t, (i64)how); free(o.start()); break; }
    case 7: free(reverse_gas(b.data())); break;
    case 8: free(json_gas(b.data())); break;
    case 9: free(scrypt_gas(b.data())); break;
    case 10: free(rsa_encrypt_gas(b.data())); break;
    case 11: free(rsa_decrypt_gas(b.data())); break;
    default: free(reverse_run(b.data()));
  }
  return m.stop();
}
void document(const Case& c, Ctx& ctx) {
  const Op& o = c[0]; size_t act = (u64)o.num(0) % NumActs; u64 how = (u64)o.num(1);
  size_t n = (size_t)16 << (u64)o.num(2) % 7, damage = (u64)o.num(3) % 16;
  if (c.size() > 1 && c[1].k == "nest") n = 120;
  bool whole = act == 7 || act == 8 || act >= 9 && act <= 12;
  auto make = [&](size_t n, size_t m) {
    std::string one = text(c, 1, n), t = "["; t.reserve(m * (one.size() + 1) + 20);
    if (act >= 5 && act <= 12) {   // shipped operations take texts; own ones take anything
      if (act == 7 || act == 12) t += "\"" + times("r\\n", m * n) + "\",";
      if (act == 8) t += "\"arrayGet\",\"[1]\",0,3,0,";
      if (act >= 9 && act <= 11) t += "\"" + times("0f", m * n) + "\",\"" + times("a0", m * n) + "\",";
    }
    for (size_t i = 0; i < m; ++i) { if (i) t += ','; t += one; }
    t += "]";
    if (act == 0) switch (damage) { // operations end the process
      case 1: t.resize(t.size() - 1); break;
      case 2: t.resize(t.size() - std::min<size_t>(t.size(), 2 + how % 5)); break;
      case 3: t[t.size() - 1 - how % std::min<size_t>(t.size(), 4)] = '!'; break;
      case 4: t[t.size() - 1] = '}'; break;
      case 5: t += times("]", n); break;
      case 6: t.insert(1, ","); break;
      default: break;
    }
    return t;
  };
  // as many of them as take long enough to be measured
  size_t m = 1; std::string t = make(n, m); Used s = once(act, t, how);
  double want = 0.0008;
  while (s.secs < want && t.size() < 200000) { m *= s.secs < want / 5 ? 4 : 2; t = make(n, m); s = once(act, t, how); }
  size_t small = t.size(); t = make(n * Times, m); size_t big = t.size();
  double content = (double)big / small;
  std::string what = std::string(Acts[act]) + " a text of " + std::to_string(big) + " bytes";
  Used b = once(act, t, how);
  judge(what, s, b, content);
  if (s.secs >= want) {
    double worst = b.secs / s.secs;
    for (int i = 0; i < 6 && worst > Times * 7; ++i) {   // the machine does other things as well
      Used s2 = once(act, make(n, m), how), b2 = once(act, t, how);
      s.secs = std::max(s.secs, s2.secs); b.secs = std::min(b.secs, b2.secs); worst = b.secs / s.secs;
    }
    PBT_CHECK(worst <= Times * 7, what << " takes " << b.secs * 1000 << " ms, and " << s.secs * 1000 << " ms for one of " << small << " bytes of the same kind");
    ctx.nontrivial = true; ctx.label(Acts[act]);
  }
  if (ctx.verbose) std::cout << what << ": " << s.secs << "/" << b.secs << " s, " << s.asked << "/" << b.asked << " bytes asked for, " << s.held << "/" << b.held << " held\n";
}
// ------------------------------------------------------------ containers
struct HMul { unsigned operator()(int k) const { return (unsigned)((u64)(unsigned)k * 0x9e3779b97f4a7c15ull >> 31); } };
typedef eni::HashTable<int, int, HMul> Tab; typedef eni::StringHashTable<int> STab; typedef eni::StringMap<std::string> Map;
int intKey(u64 p, size_t i) { return (int)(mix(i + p % 3) & 0x7fffffff); }
std::string strKey(u64 p, size_t i) { Op o("", {0, 0, (i64)p}, {"x"}); return keyOf(o, i); }
template<class T> struct Key; 
template<> struct Key<Tab> { static int of(u64 p, size_t i) { return intKey(p, i); } };
template<> struct Key<STab> { static std::string of(u64 p, size_t i) { return strKey(p, i); } };
template<> struct Key<Map> { static std::string of(u64 p, size_t i) { return strKey(p, i); } };
template<class T> auto put(T& t, const typename T::key_type& k) -> decltype(t.insert(k, *(bool*)0)->value()) { bool ex; return t.insert(k, ex)->value(); }
std::string& put(Map& t, const std::string& k) { return t[k]; }
template<class T> size_t sizeOf(const T& t) { return t.numOfEntries(); }
size_t sizeOf(const Map& t) { return t.size(); }
template<class T> void wipe(T& t) { t.clear(); }
void wipe(Map& t) { t = Map(); }
template<class T, class K> size_t tally(const T& t, const K& k) { return t.count(k); }
size_t tally(const Map& t, const std::string& k) { return t.find(k) != t.end(); }
template<class V> void set(V& v, size_t i) { v = (V)i; }
template<> void set<std::string>(std::string& v, size_t i) { v = "value"; }
template<class T> size_t table(const Case& c, size_t n) {
  size_t most = 0; volatile size_t sink = 0; u64 p = (u64)c[0].num(1);
  T t;
  for (size_t i = 1; i < c.size(); ++i) {
    const Op& o = c[i]; size_t m = n * (1 + (u64)o.num(1) % 3), from = (u64)o.num(2) % 3 * n;
    const T& ct = t;
    switch ((u64)o.num(0) % 12) {
      case 0: case 1: for (size_t k = 0; k < m; ++k) set(put(t, Key<T>::of(p, from + k)), k); break;
      case 2: for (size_t k = 0; k < m; ++k) t.erase(Key<T>::of(p, from + k)); break;
      case 3: for (size_t k = m; k--;) t.erase(Key<T>::of(p, from + k)); break;
      case 4: for (size_t k = 0; k < m; ++k) { put(t, Key<T>::of(p, 10 * n + k)); t.erase(Key<T>::of(p, 10 * n + k)); } break;      // one comes, one goes
      case 5: for (size_t k = 0; k < m; ++k) { put(t, Key<T>::of(p, 20 * n + k)); if (k >= 20) t.erase(Key<T>::of(p, 20 * n + k - 20)); } for (size_t k = m < 20 ? 0 : m - 20; k < m; ++k) t.erase(Key<T>::of(p, 20 * n + k)); break; // a window moves
      case 6: for (size_t k = 0; k < m; ++k) sink += ct.find(Key<T>::of(p, from + k)) != ct.end(); break;
      case 7: for (size_t k = 0; k < m; ++k) sink += ct.find(Key<T>::of(p, 40 * n + k)) != ct.end(); break;   // none of these is there
      case 8: { T d(t); T e; e = d; sink += sizeOf(e); break; }
      case 9: { typename T::const_iterator a = ct.begin(), e = ct.end(); for (; a != e; ++a) ++sink; break; }
      case 10: if (o.num(2) & 1) wipe(t); else { T d; std::swap(d, t); } break;
      default: for (size_t k = 0; k < m; ++k) sink += tally(ct, Key<T>::of(p, from + k)), k += m / 8; break;   // looks at all of the table, so only a few
    }
    most = std::max(most, sizeOf(t));
  }
  return most;
}
template<class E> E elem(size_t i); template<> int elem<int>(size_t i) { return (int)i; } template<> std::string elem<std::string>(size_t i) { return "element"; }
template<> json::Value elem<json::Value>(size_t i) { return json::Value((int)i); }
template<class E> size_t vector(const Case& c, size_t n) {
  size_t most = 0; volatile size_t sink = 0; eni::Vector<E> v, w;
  for (size_t i = 1; i < c.size(); ++i) {
    const Op& o = c[i]; size_t m = n * (1 + (u64)o.num(1) % 3); const eni::Vector<E>& cv = v;
    switch ((u64)o.num(0) % 13) {
      case 0: case 1: for (size_t k = 0; k < m; ++k) v.push_back(elem<E>(k)); break;
      case 2: for (size_t k = 0; k < m; ++k) v.emplace_back(elem<E>(k)); break;
      case 3: for (size_t k = 0; k < m && !v.empty(); ++k) v.pop_back(); break;
      case 4: for (size_t k = 0; k < m && !v.empty(); ++k) v.erase(v.size() - 1); break;
      case 5: for (size_t k = 0; k < m; ++k) v.insert(v.size(), elem<E>(k)); break;
      case 6: for (size_t k = 0; k < m; ++k) v.insert(v.end(), elem<E>(k)); break;
      case 7: for (size_t k = 0; k < m; ++k) { v.push_back(elem<E>(k)); if (k & 1) { v.pop_back(); v.pop_back(); } } break;   // up and down
      case 8: for (size_t k = 0; k < m; ++k) v.resize(v.size() + (k % 3 == 2 ? -1 : 1)); most = std::max(most, (size_t)v.size()); break;
      case 9: { eni::Vector<E> d(v), e; e = d; e.swap(d); sink += e.size(); break; }
      case 10: for (size_t k = 0; k < v.size(); ++k) sink += &cv[k] == &v.at(k); break;
      case 11: if (o.num(2) & 1) v.clear(); else while (!v.empty()) v.pop_back(); break;
      default: v.assign(m, elem<E>(1)); w = cv; { const eni::Vector<E>& cw = w; v.insert(v.size(), cw.begin(), cw.end()); } most = std::max(most, (size_t)v.size()); w.clear(); break;
    }
    most = std::max(most, (size_t)v.size());
  }
  return most;
}
void container(const Case& c, Ctx& ctx) {
  static const char* names[] = {"a table", "a table of strings", "a map", "a vector of numbers", "a vector of strings", "a vector of values"};
  u64 kind = (u64)c[0].num(0) % 6; size_t most = 0;
  auto go = [&](size_t n) {
    Meter m;
    switch (kind) { case 0: most = table<Tab>(c, n); break; case 1: most = table<STab>(c, n); break; case 2: most = table<Map>(c, n); break;
      case 3: most = vector<int>(c, n); break; case 4: most = vector<std::string>(c, n); break; default: most = vector<json::Value>(c, n); }
    return m.stop();
  };
  size_t n = (size_t)20 << (u64)c[0].num(2) % 5; Used s = go(n);
  while (s.secs < 0.0008 && n < 20000) { n *= 2; s = go(n); }
  size_t few = most; Used b = go(n * Times);
  std::string what = std::string("this program on ") + names[kind];
  // every element may be held several times over, in copies
  judge(what, s, b, std::max(1.0, (double)most / std::max<size_t>(few, 1)));
  if (s.secs >= 0.0008) {
    double worst = b.secs / s.secs;
    for (int i = 0; i < 6 && worst > Times * 7; ++i) { Used s2 = go(n), b2 = go(n * Times); s.secs = std::max(s.secs, s2.secs); b.secs = std::min(b.secs, b2.secs); worst = b.secs / s.secs; }
    PBT_CHECK(worst <= Times * 7, what << " takes " << b.secs * 1000 << " ms at size " << n * Times << ", and " << s.secs * 1000 << " ms at size " << n);
    ctx.nontrivial = true; ctx.label(names[kind]);
  }
  if (ctx.verbose) std::cout << what << " of size " << n << ": " << s.secs << "/" << b.secs << " s, " << s.asked << "/" << b.asked << " bytes asked for, " << s.held << "/" << b.held << " held\n";
}
void check(const Case& c, Ctx& ctx) {
  if (c.empty()) return;
  if (c[0].k == "doc") document(c, ctx);
  else if (c[0].k == "box") container(c, ctx);
}
Case gen(Src& s) {
  Case c;
  if (s.p(60)) {
    static const std::vector<std::string> grow = {"arr", "arr", "obj", "obj", "nest", "nest", "nest", "str", "num", "key", "ws"}, inner = {"arr", "obj", "nest", "str", "str", "num", "num", "key", "ws"};
    c.push_back(Op("doc", {(i64)(s.p(35) ? 0 : s.below(NumActs)), (i64)s.below(64), (i64)s.below(7), (i64)s.below(16)}));
    size_t n = 1 + s.below(4);
    for (size_t i = 0; i < n; ++i) c.push_back(Op(s.pick(i ? inner : grow), {0, (i64)s.below(3), (i64)s.below(20), (i64)s.below(8)}, {jref::genBytes(s, 6)}));
  } else {
    c.push_back(Op("box", {(i64)s.below(6), (i64)s.below(12), (i64)s.below(5)}));
    size_t n = 1 + s.below(6);
    for (size_t i = 0; i < n; ++i) c.push_back(Op("op", {(i64)s.below(i ? 13 : 3), (i64)s.below(3), (i64)s.below(3)}));
  }
  return c;
}
const Property P = {"C28", "shapes of documents (wide, deep, long, repeated keys, escapes, white space, damaged at the end) read, printed, copied, assigned, walked, quoted for and started, and programs on six kinds of containers, at one size and at 32 times that size; "
  "non-trivial: the smaller took at least 0.8 ms", gen, check, [] { g_Steady = true; std::cerr.rdbuf(0); }};
} // namespace
const Property& pbt::property() { return P; }
