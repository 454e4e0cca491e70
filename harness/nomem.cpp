// C26: running out of memory, at every point of every operation.
// This program stands between the code under test and the allocator, and denies the n-th request an
// operation makes (or every request from the n-th on), for n = 1, 2, 3, ... until the operation gets
// through.  A denied operation must say so by bad_alloc; what it was working on is then looked at.
#include <cstdint>
#include <adt/HashTable.h>
#include <adt/StringHashTable.h>
#include <adt/StringMap.h>
#include <adt/Vector.h>
#include <cerrno>
#include <new>
#include "json_eni.hpp"
#include "calls.hpp"
#include <openssl/crypto.h>
#include <openssl/err.h>
#include <eni_crypto/eni_crypto.h>
#include <eni_scrypt/eni_scrypt.h>

#define OP(n) char* n##_run(char*); uint64_t* n##_gas(char*);
extern "C" { OP(reverse) OP(json) OP(scrypt) OP(rsa_encrypt) OP(rsa_decrypt) }
extern "C" {
void* __interceptor_malloc(size_t); void* __interceptor_calloc(size_t, size_t); void* __interceptor_realloc(void*, size_t);
size_t __sanitizer_get_current_allocated_bytes();
}
namespace fault {
bool armed, sticky, hit; long left; unsigned long asked;
inline bool deny() {
  if (!armed) return false;
  ++asked;
  if (left <= 0 || --left) return false;
  hit = true; if (sticky) left = 1;
  errno = ENOMEM; return true;
}
}
extern "C" void* malloc(size_t n) { return fault::deny() ? nullptr : __interceptor_malloc(n); }
extern "C" void* calloc(size_t n, size_t m) { return fault::deny() ? nullptr : __interceptor_calloc(n, m); }
extern "C" void* realloc(void* p, size_t n) { return fault::deny() ? nullptr : __interceptor_realloc(p, n); }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

using namespace pbt;
namespace {
struct Tally { u64 denied = 0, after = 0; } g_Tally;
struct Unarm { ~Unarm() { fault::armed = false; } };
// true: done; false: bad_alloc.  Any other exception is passed on.
template<class F> bool attempt(F f, long n, bool sticky) {
  fault::left = n; fault::sticky = sticky; fault::hit = false; fault::asked = 0;
  Unarm u; fault::armed = true;
  try { f(); } catch (const std::bad_alloc&) { fault::armed = false; return false; }
  return true;
}
// denies one request after the other until f gets through; failed() is called after every failure
template<class F, class G> void sweep(const std::string& what, bool sticky, F f, G failed) {
  long n = 1;
  for (int tries = 0; tries < 60; ++tries) {
    bool done = attempt(f, n, sticky);
    if (done) { if (fault::hit) ++g_Tally.after; return; }
    PBT_CHECK(fault::hit, what << " reports that there is no memory, though every request was granted");
    ++g_Tally.denied;
    failed();
    n += tries < 12 ? 1 : 1 + n / 4;
  }
  bool done = attempt(f, 0, false);
  PBT_CHECK(done, what << " reports that there is no memory, though every request was granted");
}
template<class F> void never(const std::string& what, F f) {
  bool done = attempt(f, 1, true);
  PBT_CHECK(done, what << " needs no memory and fails without");
}

// what an element is made from
struct Seed { bool def; i64 n; std::string s; bool operator==(const Seed& o) const { return def == o.def && n == o.n && s == o.s; } };
template<class T> struct Elem;
template<> struct Elem<int> {
  static const bool plain = true;
  static int make(const Seed& x) { return x.def ? 0 : (int)x.n; }
  static std::string text(const int& v) { return std::to_string(v); }
  static std::string want(const Seed& x) { return std::to_string(make(x)); }
};
template<> struct Elem<std::string> {
  static const bool plain = false;
  static std::string make(const Seed& x) { return x.def ? "" : x.s + std::to_string(x.n); }
  static std::string text(const std::string& v) { return v; }
  static std::string want(const Seed& x) { return make(x); }
};
template<> struct Elem<json::Value> {
  static const bool plain = false;
  static json::Value make(const Seed& x) {
    if (x.def) return json::Value();
    switch (x.n & 3) {
      case 0: return json::Value((int)x.n);
      case 1: return json::Value(x.s);
      case 2: return json::Value((x.n & 4) != 0);
      default: { json::Array a; a.push_back(json::Value(x.s)); a.push_back(json::Value((int)x.n)); return json::Value(a); }
    }
  }
  static std::string text(const json::Value& v) { return jcmp::print(v); }
  static std::string want(const Seed& x) {
    if (x.def) return "";
    switch (x.n & 3) {
      case 0: return std::to_string(x.n);
      case 1: return jcmp::print(json::Value(x.s));
      case 2: return x.n & 4 ? "true" : "false";
      default: return "[" + jcmp::print(json::Value(x.s)) + "," + std::to_string(x.n) + "]";
    }
  }
};

// ------------------------------------------------------------------- vectors
template<class T> struct Vectors {
  typedef eni::Vector<T> Vec; typedef Elem<T> E; typedef std::vector<Seed> M;
  Vec a, b; M ma, mb;
  static std::string differs(const Vec& v, const M& m) {
    std::ostringstream e;
    if (v.size() != m.size()) { e << "size is " << v.size() << ", expected " << m.size(); return e.str(); }
    if (v.empty() != m.empty() || v.capacity() < v.size()) return "empty() or capacity() is wrong";
    for (size_t i = 0; i < m.size(); ++i) { std::string t = E::text(v[i]); if (t != E::want(m[i])) { e << "element " << i << " is " << jcmp::show(t) << ", expected " << jcmp::show(E::want(m[i])); return e.str(); } }
    if ((size_t)(v.end() - v.begin()) != m.size()) return "end() is not size() past begin()";
    return "";
  }
  void same(const char* when, const std::string& what) {
    std::string d = differs(a, ma); PBT_CHECK(d.empty(), when << what << " the vector differs: " << d);
    d = differs(b, mb); PBT_CHECK(d.empty(), when << what << " the other vector differs: " << d);
  }
  void restore() { a.clear(); for (auto& x : ma) a.push_back(E::make(x)); }
  template<class F> void op(const std::string& w, bool sticky, bool strong, F f) {
    sweep(w, sticky, f, [&] {
      if (strong || E::plain) { same("after a failed ", w); return; }
      // still a vector of proper elements, the other one untouched
      size_t n = 0; for (const T& x : const_cast<const Vec&>(a)) n += 1 + E::text(x).size() * 0;
      PBT_CHECK(n == a.size() && a.capacity() >= a.size(), "after a failed " << w << " the vector is no longer one");
      restore(); same("after a failed ", w);
    });
  }
  void apply(const Op& o) {
    const std::string& k = o.k; bool st = o.num(3) & 1; std::string w = "vector " + k;
    Seed x{false, o.num(0), o.str(0)}, d{true, 0, ""}; T e = E::make(x); size_t sz = ma.size(), i = (size_t)o.num(1) % (sz + 1), n = (size_t)o.num(2) % 40;
    if (k == "push") {
      bool room = a.capacity() > sz;
      if (room && E::plain) never(w + " within the capacity", [&] { a.push_back(e); }); else op(w, st, true, [&] { a.push_back(e); });
      ma.push_back(x);
    }
    else if (k == "emplace") { op(w, st, true, [&] { a.emplace_back(e); }); ma.push_back(x); }
    else if (k == "pushown") { if (sz) { i %= sz; op(w, st, true, [&] { a.push_back(a[i]); }); ma.push_back(Seed(ma[i])); } }
    else if (k == "reserve") { op(w, st, true, [&] { a.reserve(n * 3); }); PBT_CHECK(a.capacity() >= n * 3, "capacity after reserve"); }
    else if (k == "resize") { op(w, st, true, [&] { a.resize(n); }); ma.resize(n, d); }
    else if (k == "resizeto") { op(w, st, true, [&] { a.resize(n, e); }); ma.resize(n, x); }
    else if (k == "insert") { op(w, st, false, [&] { a.insert(a.begin() + i, e); }); ma.insert(ma.begin() + i, x); }
    else if (k == "insertn") { op(w, st, false, [&] { a.insert(i, n, e); }); ma.insert(ma.begin() + i, n, x); }
    else if (k == "insertb") {
      const Vec& cb = b; size_t f = mb.empty() ? 0 : n % mb.size();
      op(w, st, false, [&] { a.insert(a.begin() + i, cb.begin() + f, cb.end()); }); ma.insert(ma.begin() + i, mb.begin() + f, mb.end());
    }
    else if (k == "insertl") { op(w, st, false, [&] { a.insert(i, {e, e}); }); ma.insert(ma.begin() + i, 2, x); }
    else if (k == "assign") { op(w, st, false, [&] { a.assign(n, e); }); ma.assign(n, x); }
    else if (k == "copyto") { op(w, st, false, [&] { a = b; }); ma = mb; }
    else if (k == "list") { op(w, st, false, [&] { a = {e, e, e}; }); ma.assign(3, x); }
    else if (k == "erase") {
      if (sz) { i %= sz; size_t j = i + 1 + n % (sz - i); auto f = [&] { if (n & 1) a.erase(i, j); else a.erase(a.begin() + i, a.begin() + j); };
        if (E::plain) never(w, f); else op(w, st, false, f); ma.erase(ma.begin() + i, ma.begin() + j); }
    }
    else if (k == "pop") { if (sz) { never(w, [&] { a.pop_back(); }); ma.pop_back(); } }
    else if (k == "swap") { never(w, [&] { a.swap(b); }); ma.swap(mb); }
    else if (k == "clear") { never(w, [&] { a.clear(); }); ma.clear(); }
    else if (k == "copy") { Vec* c = 0; op(w, st, true, [&] { c = new Vec(a); }); std::string q = differs(*c, ma); delete c; PBT_CHECK(q.empty(), "copy: " << q); }
    else if (k == "make") {
      op(w, st, true, [&] { Vec c(n); PBT_CHECK(c.size() == n, "size of a new vector"); });
      op(w, st, true, [&] { Vec c(n, e); Vec c2{e, e}; PBT_CHECK(c.size() == n && c2.size() == 2, "size of a new vector"); });
      std::vector<T> s(n, e); op(w, st, true, [&] { Vec c(s); PBT_CHECK(c.size() == n, "size of a new vector"); });
    }
    same("after ", w);
  }
};

// -------------------------------------------------------------------- tables
struct Key {
  std::string s; static std::string of(i64 k) { return (k % 3 ? "a key that does not fit into the object itself " : "k") + std::to_string(k); }
  bool operator==(const Key& o) const { return s == o.s; }
};
struct HInt { unsigned operator()(int k) const { return (unsigned)k * 2654435761u; } };
struct HPoor { unsigned operator()(int k) const { return (unsigned)k & 3; } };
struct HKey { unsigned operator()(const Key& k) const { unsigned h = 7; for (char c : k.s) h = h * 31 + (unsigned char)c; return h; } };
template<class K> K keyOf(i64 k);
template<> int keyOf<int>(i64 k) { return (int)k; }
template<> Key keyOf<Key>(i64 k) { return Key{Key::of(k)}; }
template<> std::string keyOf<std::string>(i64 k) { return Key::of(k); }
template<class T, class V, bool LOOKUP> struct Tables {   // LOOKUP: looking up a key needs memory
  typedef typename T::key_type K; typedef Elem<V> E; typedef std::map<i64, Seed> M;
  T a, b; M ma, mb;
  static std::string differs(const T& t, const M& m) {
    std::ostringstream e;
    if (t.numOfEntries() != m.size() || t.empty() != m.empty()) { e << t.numOfEntries() << " entries, expected " << m.size(); return e.str(); }
    if (t.numOfEntries() && t.numOfEntries() + t.numOfTombstones() >= t.numOfBuckets()) { e << "no empty bucket is left: " << t.numOfEntries() << " entries and " << t.numOfTombstones() << " tombstones in " << t.numOfBuckets() << " buckets"; return e.str(); }
    size_t tombs = 0, full = 0;
    for (size_t i = 0; m.size() && i < t.numOfBuckets(); ++i) { auto* p = t.bucket((unsigned)i).entry; if (p == T::Tombstone()) ++tombs; else if (p != T::EmptyBucket()) ++full; }
    if (m.size() && (tombs != t.numOfTombstones() || full != m.size())) { e << "the buckets hold " << full << " entries and " << tombs << " tombstones, the counts are " << m.size() << " and " << t.numOfTombstones(); return e.str(); }
    typename T::const_iterator it, end = t.end(); size_t n = 0;
    for (auto& x : m) { it = t.find(keyOf<K>(x.first)); if (it == end) { e << "key " << x.first << " is not found"; return e.str(); } if (E::text(it->value()) != E::want(x.second)) { e << "key " << x.first << " has value " << jcmp::show(E::text(it->value())); return e.str(); } }
    for (it = t.begin(); it != end && n <= m.size(); ++it) ++n;
    if (n != m.size()) { e << "iteration visits " << n; return e.str(); }
    if (m.size()) for (i64 k = 1000; k < 1008; ++k) if (t.find(keyOf<K>(k)) != end) return "an absent key is found";
    return "";
  }
  void same(const char* when, const std::string& what) {
    std::string d = differs(a, ma); PBT_CHECK(d.empty(), when << what << " the table differs: " << d);
    d = differs(b, mb); PBT_CHECK(d.empty(), when << what << " the other table differs: " << d);
  }
  template<class F> void op(const std::string& w, bool st, F f) { sweep(w, st, f, [&] { same("after a failed ", w); }); }
  template<class F> void none(const std::string& w, bool st, F f) { if (LOOKUP) op(w, st, f); else never(w, f); }
  void apply(const Op& o) {
    const std::string& k = o.k; bool st = o.num(3) & 1; std::string w = "table " + k; i64 kn = o.num(1) % 200; K key = keyOf<K>(kn);
    Seed x{false, o.num(0), o.str(0)}; size_t n = (size_t)o.num(2) % 40;
    if (k == "insert" || k == "insertn") {
      size_t count = k == "insert" ? 1 : n % 12 + 1;
      for (size_t j = 0; j < count; ++j) {
        i64 kk = (kn + (i64)j) % 200; K q = keyOf<K>(kk); V v = E::make(x); bool ex = false; typename T::entry_type* en = 0;
        op(w, st, [&] { en = a.insert(q, ex); });
        PBT_CHECK(ex == (ma.count(kk) > 0) && en, "insert tells the wrong story");
        en->value() = std::move(v); ma[kk] = x;
      }
    }
    else if (k == "erase" || k == "erasen") {
      size_t count = k == "erase" ? 1 : n % 12 + 1;
      for (size_t j = 0; j < count; ++j) {
        i64 kk = (kn + (i64)j) % 200; if (k == "erasen" && ma.size()) { auto p = ma.lower_bound(kk); kk = (p == ma.end() ? ma.begin() : p)->first; }
        K q = keyOf<K>(kk); bool r = false;
        none(w, st, [&] { r = a.erase(q); });
        PBT_CHECK(r == (ma.erase(kk) > 0), "erase tells the wrong story");
      }
    }
    else if (k == "find") {
      bool f = false; none(w, st, [&] { f = a.find(key) != a.end(); }); PBT_CHECK(f == (ma.count(kn) > 0), "find tells the wrong story");
      const T& c = a; none(w, st, [&] { f = c.find(key) != c.end(); }); PBT_CHECK(f == (ma.count(kn) > 0), "find tells the wrong story");
    }
    else if (k == "rehash") { op(w, st, [&] { a.rehash(); }); }
    else if (k == "rehashto") { size_t m = n * (o.num(0) & 1 ? 1 : 9); if (a.numOfBuckets()) op(w, st, [&] { a.rehash(m); }); }
    else if (k == "copy") { T* c = 0; op(w, st, [&] { c = new T(a); }); std::string q = differs(*c, ma); if (q.empty()) { bool ex; c->insert(keyOf<K>(500), ex); q = differs(a, ma); } delete c; PBT_CHECK(q.empty(), "copy: " << q); }
    else if (k == "copyto") { op(w, st, [&] { a = b; }); ma = mb; }
    else if (k == "self") { op(w, st, [&] { a = *&a; }); }
    else if (k == "move") { never(w, [&] { T c(std::move(a)); a = std::move(c); }); }
    else if (k == "moveto") { never(w, [&] { a = std::move(b); }); ma = mb; mb.clear(); b.clear(); }
    else if (k == "swap") { never(w, [&] { T c(std::move(a)); a = std::move(b); b = std::move(c); }); ma.swap(mb); }
    else if (k == "clear") { never(w, [&] { a.clear(); }); ma.clear(); }
    else if (k == "make") {
      op(w, st, [&] {
        T c(n), c2; bool ex = true; c2.clear(); c.insert(key, ex);
        bool arm = fault::armed; fault::armed = false; M m; m[kn] = Seed{true, 0, ""}; std::string q = differs(c, m); if (q.empty()) q = differs(c2, M());
        fault::armed = arm; PBT_CHECK(q.empty() && !ex, "a new table: " << q);
      });
      T* c = 0; op(w, st, [&] { c = new T(n); });   // built without memory for buckets or with: it serves
      for (i64 j = 0; j < 5; ++j) { bool ex; c->insert(keyOf<K>(j), ex); c->erase(keyOf<K>(j + 3)); }
      c->rehash(40); size_t cnt = c->numOfEntries(); delete c; PBT_CHECK(cnt == 5, "a new table holds " << cnt << " of 5");
    }
    else return;
    same("after ", w);
  }
};

// ---------------------------------------------------------------------- maps
struct Maps {
  typedef eni::StringMap<std::string> T; typedef std::map<std::string, std::string> M;
  T a, b; M ma, mb;
  static std::string differs(const T& t, const M& m) {
    if (t.size() != m.size() || t.empty() != m.empty()) return "size is " + std::to_string(t.size()) + ", expected " + std::to_string(m.size());
    for (auto& x : m) { T::const_iterator it = t.find(x.first); if (it == t.end()) return "no " + jcmp::show(x.first); if (it->value() != x.second || it->key() != x.first) return "wrong value for " + jcmp::show(x.first); }
    size_t n = 0; T::const_iterator it, end = t.end(); for (it = t.begin(); it != end && n <= m.size(); ++it) ++n;
    if (n != m.size()) return "iteration visits " + std::to_string(n);
    if (m.size()) for (int k = 0; k < 8; ++k) if (t.find("absent" + std::to_string(k)) != end) return "an absent key is found";
    return "";
  }
  void same(const char* when, const std::string& what) {
    std::string d = differs(a, ma); PBT_CHECK(d.empty(), when << what << " the map differs: " << d);
    d = differs(b, mb); PBT_CHECK(d.empty(), when << what << " the other map differs: " << d);
  }
  template<class F> void op(const std::string& w, bool st, F f) { sweep(w, st, f, [&] { same("after a failed ", w); }); }
  void apply(const Op& o) {
    const std::string& k = o.k; bool st = o.num(3) & 1; std::string w = "map " + k; size_t count = k.back() == 'n' ? (size_t)o.num(2) % 12 + 1 : 1;
    for (size_t j = 0; j < count; ++j) {
      std::string key = Key::of((o.num(1) + (i64)j) % 200), val = o.str(0);
      if (k == "insert" || k == "insertn") { std::string* v = 0; op(w, st, [&] { v = &a[key]; }); PBT_CHECK(*v == ma[key], "a new member is not empty"); *v = val; ma[key] = val; }
      else if (k == "erase" || k == "erasen") { bool r = false; if (k == "erasen" && ma.size()) { auto p = ma.lower_bound(key); key = (p == ma.end() ? ma.begin() : p)->first; } op(w, st, [&] { r = a.erase(key); }); PBT_CHECK(r == (ma.erase(key) > 0), "erase tells the wrong story"); }
      else if (k == "find") {
        std::string got; bool there = false; const T& c = a;
        op(w, st, [&] { there = false; try { got = o.num(0) & 1 ? a.at(key) : c[key]; there = true; } catch (const std::out_of_range&) {} });
        PBT_CHECK(there == (ma.count(key) > 0) && (!there || got == ma[key]), "at() tells the wrong story");
      }
      else if (k == "copy" || k == "move") { T* c = 0; op(w, st, [&] { c = new T(a); }); std::string q = differs(*c, ma); delete c; PBT_CHECK(q.empty(), "copy: " << q); }
      else if (k == "copyto" || k == "moveto") { op(w, st, [&] { a = b; }); ma = mb; }
      else if (k == "swap") { T c(a); a = b; b = c; ma.swap(mb); }
      else if (k == "make") { op(w, st, [&] { T c((size_t)o.num(2) % 40); c[key]; PBT_CHECK(c.size() == 1, "a new map"); }); }
      else return;
      same("after ", w);
    }
  }
};

// --------------------------------------------------------------- JSON values
class Echo : public eni::EniBase {
public:
  explicit Echo(const std::string& t) : eni::EniBase(t) {}
private:
  bool parse(const json::Array& a) override { m_All = json::Value(a); return true; }
  eni::Gas gas() const override { return 3; }
  bool run(json::Array& r) override { r.push_back(m_All); r.emplace_back(m_All); return true; }
  json::Value m_All;
};
struct Values {
  json::Value v, w; jref::V mv, mw; bool have = false, haveW = false;
  void same(const char* when, const std::string& what) {
    std::string d; if (have) { d = jcmp::diff(mv, v); PBT_CHECK(d.empty(), when << what << " the value differs at " << d); } else PBT_CHECK(v.isUndefined(), when << what << " the value is defined");
    if (haveW) { d = jcmp::diff(mw, w); PBT_CHECK(d.empty(), when << what << " the other value differs at " << d); } else PBT_CHECK(w.isUndefined(), when << what << " the other value is defined");
  }
  template<class F> void op(const std::string& n, bool st, F f) { sweep(n, st, f, [&] { same("after a failed ", n); }); }
  static bool ref(const std::string& t, jref::V& m) { jref::Reader r(t, false); return r.value(m) && !r.wideEscape && m.exact; }
  void apply(const Op& o) {
    const std::string& k = o.k; const std::string& t = o.str(1); bool st = o.num(3) & 1; std::string n = "value " + k;
    jref::V m; bool valid = k == "parse" || k == "set" || k == "member" || k == "push" || k == "start" ? ref(t, m) : false;
    if (k == "parse") {
      if (valid) { json::Value got; op("reading " + jcmp::show(t), st, [&] { json::Parser p(t); bool ok = (bool)p; PBT_CHECK(ok, "a text is refused for want of memory"); got = p.getRoot(); }); std::string d = jcmp::diff(m, got); PBT_CHECK(d.empty(), "read under pressure differs at " << d); w = std::move(got); mw = m; haveW = true; }
    }
    else if (k == "broken") {
      std::string c = o.str(1); jref::V x; jref::Reader r(c, false); if (r.value(x)) { c = "[" + c; }
      jref::Reader r2(c, false); jref::V y; if (!r2.value(y)) { bool ok = false; op("reading " + jcmp::show(c), st, [&] { json::Parser p(c); ok = (bool)p; }); PBT_CHECK(!ok, "a broken text is accepted"); }
    }
    else if (k == "set") { if (valid) { json::Value x = jcmp::build(m); never("move of a value", [&] { v = std::move(x); }); mv = m; have = true; } }
    else if (k == "copy") { json::Value* c = 0; op(n, st, [&] { c = new json::Value(v); }); std::string d = have ? jcmp::diff(mv, *c) : ""; delete c; PBT_CHECK(d.empty(), "copy differs at " << d); }
    else if (k == "copyto") { op(n, st, [&] { v = w; }); mv = mw; have = haveW; }
    else if (k == "swap") { never(n, [&] { json::Value x(std::move(v)); v = std::move(w); w = std::move(x); }); std::swap(mv, mw); std::swap(have, haveW); }
    else if (k == "part") {
      if (have && mv.kind == jref::Arr && mv.a.size()) { size_t i = (size_t)o.num(1) % mv.a.size(); const json::Value& c = v; op(n, st, [&] { v = c[(int)i]; }); jref::V x = mv.a[i]; mv = x; }
      else if (have && mv.kind == jref::Obj && mv.o.size()) { auto it = mv.o.begin(); std::advance(it, (size_t)o.num(1) % mv.o.size()); const json::Value& c = v; op(n, st, [&] { v = c[it->first]; }); jref::V x = it->second; mv = x; }
    }
    else if (k == "member") {
      if (valid && have && mv.kind == jref::Obj) { json::Value x = jcmp::build(m); json::Value* at = 0; op(n, st, [&] { at = &v.asObject()[o.str(0)]; }); *at = std::move(x); mv.o[o.str(0)] = m; }
      else if (valid && have && mv.kind == jref::Arr) { json::Value x = jcmp::build(m); op(n, st, [&] { v.asArray().push_back(x); }); mv.a.push_back(m); }
    }
    else if (k == "whole") {   // contents assigned whole
      if (haveW && (o.num(0) & 1) && (mw.kind == jref::Obj || mw.kind == jref::Arr)) {   // to little or nothing of the same kind
        jref::V few; few.kind = mw.kind; size_t left = (size_t)o.num(2) % 3;
        if (mw.kind == jref::Obj) { for (auto& e : mw.o) if (left && left--) few.o[o.num(0) & 2 ? e.first : o.str(0)] = e.second; } else for (auto& e : mw.a) if (left && left--) few.a.push_back(e);
        v = jcmp::build(few); mv = few; have = true;
      }
      if (have && haveW && mv.kind == mw.kind && mv.kind == jref::Obj) { op(n, st, [&] { v.asObject() = w.toObject(); }); mv = mw; }
      else if (have && haveW && mv.kind == mw.kind && mv.kind == jref::Arr) {
        sweep(n, st, [&] { v.asArray() = w.toArray(); }, [&] { jcmp::print(v); v = jcmp::build(mv); same("after a failed ", n); }); mv = mw;
      }
      else if (have && mv.kind == jref::Obj) { json::Value* c = 0; op(n, st, [&] { c = new json::Value(v.toObject()); }); std::string d = jcmp::diff(mv, *c); delete c; PBT_CHECK(d.empty(), "value of an object differs at " << d); }
      else if (have && mv.kind == jref::Arr) { json::Value* c = 0; op(n, st, [&] { c = new json::Value(v.toArray()); }); std::string d = jcmp::diff(mv, *c); delete c; PBT_CHECK(d.empty(), "value of an array differs at " << d); }
      else if (have && mv.kind == jref::Str) { json::Value* c = 0; op(n, st, [&] { c = new json::Value(v.toString()); }); std::string d = jcmp::diff(mv, *c); delete c; PBT_CHECK(d.empty(), "value of a string differs at " << d); }
      else if (have && mv.kind == jref::Int) { json::Value* c = 0; op(n, st, [&] { c = new json::Value(v.toInteger()); }); std::string d = jcmp::diff(mv, *c); delete c; PBT_CHECK(d.empty(), "value of an integer differs at " << d); }
    }
    else if (k == "print") {
      if (have) { std::string full = jcmp::print(v), got; bool good = false; op(n, st, [&] { std::ostringstream os; v.print(os); good = os.good(); got = os.str(); if (!good) throw std::bad_alloc(); }); PBT_CHECK(got == full, "printed " << jcmp::show(got) << " of " << jcmp::show(full) << " without a word"); }
    }
    else if (k == "start") {
      if (valid && m.kind == jref::Arr) {
        std::string full; { Echo x(t); char* r = x.start(); full = r; free(r); }
        char* r = 0; op("start of an operation", st, [&] { Echo x(t); if (x.getGas() != 3) PBT_CHECK(false, "gas"); r = x.start(); if (!r) throw std::bad_alloc(); });
        std::string got = r; free(r);
        PBT_CHECK(got == full, "the operation answers " << jcmp::show(got) << " for want of memory, otherwise " << jcmp::show(full));
      }
    }
    else return;
    same("after ", n);
  }
};

// ---------------------------------------------------------------- operations
// libcrypto has an allocator of its own here: what it does without memory is its affair.
struct Operations {
  typedef char* (*Run)(char*); typedef uint64_t* (*Gas)(char*);
  // one instance, asked again after every failure
  template<class F> void instance(const std::string& n, const std::string& t, i64 how, bool served, const std::string& want, uint64_t quote) {
    F x(t);
    for (int i = 0; i < 4; ++i) {
      std::string got; uint64_t gas = 0; bool st = how >> 4 & 1;
      if (how >> i & 1) {
        sweep("start of " + n, st, [&] { char* q = x.start(); if (!q && (served || fault::hit)) throw std::bad_alloc(); fault::armed = false; got = q ? q : ""; free(q); }, [] {});
        PBT_CHECK(got == want, n << " answers " << jcmp::show(got) << " after running out of memory, otherwise " << jcmp::show(want) << ", to " << jcmp::show(t));
      } else {
        sweep("quote of " + n, st, [&] { gas = x.getGas(); }, [] {});
        PBT_CHECK(gas == quote, n << " quotes " << gas << " after running out of memory, otherwise " << quote << ", for " << jcmp::show(t));
      }
    }
  }
  void apply(const Op& o) {
    const std::string &n = o.str(0), &t = o.str(1);
    bool known = false; for (auto& x : calls::names()) known = known || x == n;
    if (o.k != "call" || !known || t.find('\0') != std::string::npos || !calls::inDomain(n, t)) return;
    jref::V v; jref::Reader r(t, false); if (!r.value(v)) return;
    Run run = n == "reverse" ? reverse_run : n == "json" ? json_run : n == "scrypt" ? scrypt_run : n == "rsa_encrypt" ? rsa_encrypt_run : rsa_decrypt_run;
    std::vector<char> b(t.begin(), t.end()); b.push_back(0);
    char* p = run(b.data()); bool served = p; std::string want = p ? p : "", got; free(p);
    sweep("invocation of " + n, o.num(0) & 1, [&] { char* q = run(b.data()); if (!q && (served || fault::hit)) throw std::bad_alloc(); served = q; fault::armed = false; got = q ? q : ""; free(q); }, [] {});
    Gas gas = n == "reverse" ? reverse_gas : n == "json" ? json_gas : n == "scrypt" ? scrypt_gas : n == "rsa_encrypt" ? rsa_encrypt_gas : rsa_decrypt_gas;
    uint64_t *g = gas(b.data()), quote = *g, quoted = 0; free(g);
    sweep("quote of " + n, o.num(0) & 1, [&] { uint64_t* q = gas(b.data()); if (!q) throw std::bad_alloc(); quoted = *q; free(q); }, [] {});
    PBT_CHECK(quoted == quote, n << " quotes " << quoted << " for want of memory, otherwise " << quote << ", for " << jcmp::show(t));
    if (n == "scrypt") instance<Scrypt>(n, t, o.num(1), served, want, quote);
    if (n == "rsa_encrypt") instance<eni_crypto::RSAEncrypt>(n, t, o.num(1), served, want, quote);
    if (n == "rsa_decrypt") instance<eni_crypto::RSADecrypt>(n, t, o.num(1), served, want, quote);
    PBT_CHECK(got == want, n << " answers " << jcmp::show(got) << " for want of memory, otherwise " << jcmp::show(want) << ", to " << jcmp::show(t));
  }
};

typedef Tables<eni::HashTable<int, int, HInt>, int, false> TInt;
typedef Tables<eni::HashTable<int, std::string, HPoor>, std::string, false> TPoor;
typedef Tables<eni::HashTable<Key, std::string, HKey>, std::string, false> TKey;
typedef Tables<eni::StringHashTable<std::string>, std::string, true> TStr;
typedef Tables<eni::StringHashTable<json::Value>, json::Value, true> TVal;
template<class D> void history(const Case& c) { D d; for (const Op& o : c) if (o.k != "what") d.apply(o); }
void run(const std::string& w, const Case& c) {
  if (w == "ints") history<Vectors<int>>(c);
  else if (w == "strings") history<Vectors<std::string>>(c);
  else if (w == "values") history<Vectors<json::Value>>(c);
  else if (w == "tint") history<TInt>(c);
  else if (w == "tpoor") history<TPoor>(c);
  else if (w == "tkey") history<TKey>(c);
  else if (w == "tstr") history<TStr>(c);
  else if (w == "tval") history<TVal>(c);
  else if (w == "map") history<Maps>(c);
  else if (w == "ops") history<Operations>(c);
  else history<Values>(c);
}
void check(const Case& c, Ctx& ctx) {
  std::string w = c.empty() || c[0].k != "what" ? "json" : c[0].str(0);
  g_Tally = Tally(); run(w, c); Tally t = g_Tally;
  ctx.label(w); if (t.after) ctx.label("got through in spite of a denial");
  if (t.denied) { ctx.nontrivial = true; ctx.label(t.denied < 10 ? "1-9 denials" : t.denied < 100 ? "10-99 denials" : "100 denials and more"); }
  size_t kept = 0;
  for (int i = 0; i < (w == "ops" ? 20 : 4); ++i) {
    ERR_clear_error(); size_t before = __sanitizer_get_current_allocated_bytes(); run(w, c); ERR_clear_error(); size_t after = __sanitizer_get_current_allocated_bytes();
    if (after <= before) return;
    kept = after - before;
  }
  PBT_CHECK(false, kept << " bytes are kept after running out of memory");
}
Case gen(Src& s) {
  static const std::vector<std::string> whats = {"ints", "strings", "values", "tint", "tpoor", "tkey", "tstr", "tval", "map", "json", "json", "json", "ops"};
  static const std::vector<std::string> vec = {"push", "push", "emplace", "pushown", "reserve", "resize", "resizeto", "insert", "insertn", "insertb", "insertl", "assign", "copyto", "list", "erase", "erase", "pop", "swap", "clear", "copy", "make"};
  static const std::vector<std::string> tab = {"insert", "insert", "insertn", "insertn", "insertn", "erase", "erasen", "erasen", "find", "rehash", "rehashto", "copy", "copyto", "self", "move", "moveto", "swap", "swap", "clear", "make"};
  static const std::vector<std::string> val = {"parse", "parse", "broken", "set", "set", "copy", "copyto", "swap", "part", "member", "member", "whole", "print", "start"};
  Case c; std::string w = s.pick(whats); c.push_back(Op("what", {}, {w}));
  if (w == "ops") { for (size_t i = 1 + s.below(2); i--;) { Op o = calls::gen(s, s.p(20)); o.n = {(i64)s.below(2), (i64)s.below(32)}; c.push_back(o); } return c; }
  bool v = w == "ints" || w == "strings" || w == "values", j = w == "json";
  size_t n = 1 + s.len(j ? 10 : 40);
  for (size_t i = 0; i < n; ++i) {
    const std::string& k = s.pick(j ? val : v ? vec : tab);
    if (s.rare(4) && !j && !v && (k == "clear" || k == "moveto")) continue;
    Op o(k, {(i64)s.below(1000), (i64)s.below(200), (i64)s.below(400), (i64)s.below(2)}, {s.p(50) ? std::string(s.below(8), 'x') : std::string(16 + s.below(40), (char)('a' + s.below(26)))});
    if (j) {
      std::string t;
      if (s.p(70)) { jref::GenOpt g; g.budget = 12; g.wsDensity = 0; g.rawControls = false; g.maxStr = 40; jref::genValue(s, g, 0, 4, t); if (k == "start") t = "[" + t + "]"; }
      else t = s.p(50) ? "{\"a long member name that needs memory\":[1,2,[\"another long string to be copied\"]],\"b\":{}}" : "[[],{\"k\":-5},\"0123456789012345678901234567890123456789\",[[true]]]";
      if (k == "broken") t = t.substr(0, s.below(t.size() + 1));
      o.s.push_back(t);
      if (s.p(40)) o.s[0] = Key::of((i64)s.below(30));
    }
    c.push_back(o);
  }
  return c;
}
const Property P = {"C26", "histories of operations on vectors, hash tables, string maps and JSON values (reading, copying, assigning, changing, printing) and invocations of the operations; every operation is tried with its first, second, third, ... request for memory denied, "
  "alone or with all that follow, until it gets through; non-trivial: at least one denied request made an operation fail", gen, check, [] {
  std::cerr.rdbuf(0);
  CRYPTO_set_mem_functions([](size_t n, const char*, int) { return n ? __interceptor_malloc(n) : (void*)0; },
                           [](void* p, size_t n, const char*, int) { if (!n) { free(p); return (void*)0; } return __interceptor_realloc(p, n); },
                           [](void* p, const char*, int) { free(p); });
  keys::pool();
}};
} // namespace
const Property& pbt::property() { return P; }
