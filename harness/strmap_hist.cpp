// C07: string keys are told apart by all their bytes.
// C21: the substring filter.
#include <adt/StringMap.h>
#include <adt/StringHashTable.h>
#include <map>
#include <unordered_map>
#include "errors.hpp"
#include "locales.hpp"
#include "pbt.hpp"

// every member of an entry can be used
template struct eni::internal::Entry<std::string, int>;
template struct eni::internal::Entry<std::string, std::string>;

using namespace pbt;
namespace {
using namespace eni::internal;

#if defined(PROP_C07)
enum { Slots = 2 };
std::string g_Unique;

// pairs of distinct keys with equal hashes, found by search
template<class H> std::vector<std::string> collisions(size_t tries, size_t want) {
  std::vector<std::string> out; std::unordered_map<uint32_t, std::string> seen; H h; u64 q = 12345;
  for (size_t i = 0; i < tries && out.size() < want; ++i) {
    q = mix(q + 1); std::string s; u64 z = q; size_t n = 5 + z % 4;
    for (size_t k = 0; k < n; ++k) { s += (char)('a' + z % 26); z /= 26; }
    uint32_t v = h(s); auto it = seen.find(v);
    if (it == seen.end()) seen[v] = s; else if (it->second != s) { out.push_back(s); out.push_back(it->second); }
  }
  return out;
}
std::vector<std::string> g_Pool;

std::string keyOf(const Op& o) {
  const std::string& s = o.str(0);
  u64 v = (u64)o.num(3);
  switch ((u64)o.num(2) % 5) {
    case 1: return g_Pool[v % g_Pool.size()];
    case 2: return std::string(v % 140000, 'x') + s;
    case 3: return std::string(v % 4, '\0') + s;
    case 4: return s + std::string(v % 4, '\0');
    default: return s;
  }
}

// one interface over both containers
struct MapAdapter {
  typedef eni::StringMap<int> C;
  static C* make(size_t n) { return new C(n); }
  static int& sub(C& c, const std::string& k, bool) { return c[k]; }
  static size_t size(const C& c) { return c.size(); }
  static const bool map = true;
};
template<class H> struct TabAdapter {
  typedef eni::StringHashTable<int, H> C;
  static C* make(size_t n) { return new C(n); }
  static int& sub(C& c, const std::string& k, bool expect) {
    bool ex = !expect; typename C::entry_type* e = c.insert(k, ex);
    PBT_CHECK(ex == expect, "insert of a key of " << k.size() << " bytes reports exist=" << ex);
    PBT_CHECK(e->key() == k, "insert of a key of " << k.size() << " bytes returns an entry of another key");
    return e->value();
  }
  static size_t size(const C& c) { return c.numOfEntries(); }
  static const bool map = false;
};

template<class C> void refusals(C&, const std::string&, const std::map<std::string, int>&, std::true_type*) {}
void atChecks(eni::StringMap<int>& c, const std::string& k, const std::map<std::string, int>& m) {
  const eni::StringMap<int>& cc = c;
  auto it = m.find(k); int got[3], how[3] = {0, 0, 0};
  for (int i = 0; i < 3; ++i) {
    try { got[i] = i == 0 ? c.at(k) : i == 1 ? cc.at(k) : cc[k]; }
    catch (const std::out_of_range& e) { how[i] = 1; errors::readable(e, "reading a missing key"); }
    if (it == m.end()) PBT_CHECK(how[i] == 1, "reading a missing key of " << k.size() << " bytes does not raise out of range (way " << i << ")");
    else PBT_CHECK(how[i] == 0 && got[i] == it->second, "reading a present key of " << k.size() << " bytes fails (way " << i << ")");
  }
  PBT_CHECK(c.size() == m.size(), "reading a key changes the number of entries");
}
template<class C> void atChecks(C& c, const std::string& k, const std::map<std::string, int>& m) {
  auto it = m.find(k);
  PBT_CHECK((c.count(k) != 0) == (it != m.end()), "count of a key of " << k.size() << " bytes is wrong");
}

template<class A> void history(const Case& c, Ctx& ctx, const char* name) {
  typedef typename A::C C; typedef std::map<std::string, int> M;
  ctx.label(name);
  struct Own { C* c[Slots]; Own() { for (auto& x : c) x = A::make(8); } ~Own() { for (auto x : c) delete x; } } own;
  M m[Slots];
  size_t longKeys = 0, special = 0, step = 0;
  auto probe = [&](int k, const std::string& key) {
    C& a = *own.c[k]; const C& cc = a; auto r = m[k].find(key);
    typename C::iterator it = a.find(key); typename C::const_iterator ct = cc.find(key);
    bool has = r != m[k].end();
    PBT_CHECK((it != a.end()) == has, "find of a key of " << key.size() << " bytes: " << !has << ", expected " << has);
    PBT_CHECK((ct != cc.end()) == has, "constant find of a key of " << key.size() << " bytes: " << !has << ", expected " << has);
    if (has) PBT_CHECK(it->key() == key && it->value() == r->second && ct->key() == key && ct->value() == r->second, "find of a key of " << key.size() << " bytes gives another entry");
    atChecks(a, key, m[k]);
  };
  auto verify = [&](int k, const std::string& key) {
    C& a = *own.c[k]; const C& cc = a;
    PBT_CHECK(A::size(a) == m[k].size(), "size " << A::size(a) << ", expected " << m[k].size());
    PBT_CHECK(a.empty() == m[k].empty(), "empty() is wrong");
    size_t n = 0; std::set<std::string> seen;
    for (typename C::iterator it = a.begin(), e = a.end(); it != e && n <= m[k].size(); ++it, ++n) {
      auto r = m[k].find(it->key());
      PBT_CHECK(r != m[k].end() && r->second == it->value(), "iteration gives an entry that is not there, key of " << it->key().size() << " bytes");
      seen.insert(it->key());
    }
    PBT_CHECK(n == m[k].size() && seen.size() == n, "iteration visits " << n << " entries, " << seen.size() << " distinct, of " << m[k].size());
    n = 0;
    for (typename C::const_iterator it = cc.begin(), e = cc.end(); it != e && n <= m[k].size(); ++it, ++n) PBT_CHECK(m[k].count(it->key()), "constant iteration gives an absent key");
    PBT_CHECK(n == m[k].size(), "constant iteration visits " << n << " entries of " << m[k].size());
    for (auto& e : m[k]) { typename C::iterator it = a.find(e.first); PBT_CHECK(it != a.end() && it->value() == e.second, "a key of " << e.first.size() << " bytes is lost or has another value"); }
    // near misses
    probe(k, key); probe(k, key + "a"); probe(k, key + std::string(1, '\0')); probe(k, std::string(1, '\0') + key); probe(k, "");
    if (!key.empty()) { std::string t = key; t[t.size() / 2] ^= 0x20; probe(k, t); t = key; t[t.size() - 1] ^= (char)0x80; probe(k, t); probe(k, key.substr(1)); probe(k, key.substr(0, key.size() - 1)); }
    if (key.size() > 65536) probe(k, key.substr(0, key.size() - 65536));
  };
  for (const Op& op : c) {
    const std::string& n = op.k; ++step;
    int k = (int)((u64)op.num(0) % Slots), j = 1 - k, val = (int)op.num(1);
    std::string key = keyOf(op);
    if (key.size() >= 60000) ++longKeys;
    if (op.num(2) % 5) ++special;
    C& a = *own.c[k];
    auto put = [&](const std::string& q, int v) {
      bool had = m[k].count(q) != 0; int& r = A::sub(a, q, had);
      if (!had) PBT_CHECK(r == 0, "the new entry of a key of " << q.size() << " bytes starts with value " << r);
      r = v; m[k][q] = v;
    };
    if (n == "set") put(key, val);
    else if (n == "bulk") {
      size_t cnt = !op.num(4) ? (size_t)((u64)op.num(3) % 60) : m[k].size() < 100 ? 66000 + (u64)op.num(3) % 30000 : 0;
      if (cnt > 60) ctx.label("more than 65536 entries");
      for (size_t i = 0; i < cnt; ++i) put(op.str(0) + std::to_string(i * (1 + (u64)val % 7)), val + (int)i);
    }
    else if (n == "bulkdel") {
      size_t cnt = !op.num(4) ? (size_t)((u64)op.num(3) % 60) : 70000;
      for (size_t i = 0; i < cnt; ++i) { std::string q = op.str(0) + std::to_string(i); bool had = m[k].erase(q) != 0; PBT_CHECK(a.erase(q) == had, "erase of a key returns " << !had); }
    }
    else if (n == "get") { if (m[k].count(key)) PBT_CHECK(A::sub(a, key, true) == m[k][key], "subscript of a present key gives another value"); }
    else if (n == "del") { bool had = m[k].erase(key) != 0; PBT_CHECK(a.erase(key) == had, "erase of a key of " << key.size() << " bytes returns " << !had); }
    else if (n == "delsome") { if (!m[k].empty()) { auto it = m[k].lower_bound(key); if (it == m[k].end()) it = m[k].begin(); std::string q = it->first; m[k].erase(it); PBT_CHECK(a.erase(q), "erase of a present key returns false"); } }
    else if (n == "write") { typename C::iterator it = a.find(key); if (it != a.end()) { it->setValue(val); m[k][key] = val; } }
    else if (n == "copy") { delete own.c[j]; own.c[j] = new C(a); m[j] = m[k]; }
    else if (n == "assign") { C& r = (*own.c[j] = a); PBT_CHECK(&r == own.c[j], "assignment returns another map"); m[j] = m[k]; }
    else if (n == "self") { a = *own.c[k]; }
    else if (n == "move") { C* t = new C(std::move(a)); delete own.c[k]; own.c[k] = t; }
    else if (n == "new") { delete own.c[k]; own.c[k] = A::make((size_t)(u64)op.num(3) % 40); m[k].clear(); }
    verify(k, key);
    if (n == "copy" || n == "assign" || step == c.size()) verify(j, key);
    else probe(j, key);
  }
  if (longKeys) ctx.label("keys of 60000 bytes or more");
  if (special) ctx.label("colliding, long or NUL keys");
  if (m[0].size() + m[1].size() >= 10) ctx.label("10 entries or more");
  ctx.nontrivial = c.size() >= 4 && special;
}

Case gen(Src& s) {
  static const std::vector<std::string> kinds = {"set", "set", "set", "set", "set", "set", "bulk", "bulkdel", "get", "del", "delsome", "delsome", "write", "copy", "assign", "self", "move", "new"};
  Case c; c.push_back(Op("table", {(i64)s.below(18)}));
  size_t n = 1 + s.below(s.size());
  int alphabet = 1 + (int)s.below(4); bool wide = s.rare(40);
  bool bigKeys = s.rare(4);
  if (!s.fromFuzzer() && s.below(1500) == 0) {       // more entries than 16 bits count
    i64 k = (i64)s.below(Slots); c[0].n = {s.pick(std::vector<i64>{0, 1, 5, 9, 10, 12, 12, 12, 12})}; size_t m = 1 + s.below(3);
    c.push_back(Op("bulk", {k, 7 * (i64)s.below(100), 0, (i64)s.below(30000), 1}, {"k"}));
    for (size_t i = 0; i < m; ++i) c.push_back(Op(s.pick(std::vector<std::string>{"bulkdel", "bulkdel", "copy", "assign", "self", "move", "delsome", "set"}), {k, (i64)s.below(1000), 0, (i64)s.below(60), 1}, {"k"}));
    return c;
  }
  for (size_t i = 0; i < n; ++i) {
    Op o(s.pick(kinds));
    std::string key; size_t l = s.below(4);
    for (size_t q = 0; q < l; ++q) key += wide ? (char)s.below(256) : (char)('a' + s.below(alphabet));
    int how = (int)s.weighted({5, 3, bigKeys ? 3 : 0, 2, 2});
    i64 v = how == 2 ? (i64)(s.p(60) ? 65536 * (1 + s.below(2)) - 3 + s.below(6) : s.below(140000)) : (i64)s.below(64);
    o.n = {(i64)s.below(Slots), (i64)s.below(1000), how, v};
    o.s = {key};
    c.push_back(o);
  }
  return c;
}

void check(const Case& c, Ctx& ctx) {
  int t = 0; Case rest;
  for (const Op& o : c) { if (o.k == "table") t = (int)((u64)o.num(0) % 18); else rest.push_back(o); }
  switch (t) {
    case 0: history<TabAdapter<StringHasher<RS>>>(rest, ctx, "table RS"); break;
    case 1: history<TabAdapter<StringHasher<JS>>>(rest, ctx, "table JS"); break;
    case 2: history<TabAdapter<StringHasher<PJW>>>(rest, ctx, "table PJW"); break;
    case 3: case 4: history<TabAdapter<StringHasher<ELF>>>(rest, ctx, "table ELF"); break;
    case 5: history<TabAdapter<StringHasher<BKDR>>>(rest, ctx, "table BKDR"); break;
    case 6: history<TabAdapter<StringHasher<DJB>>>(rest, ctx, "table DJB"); break;
    case 7: history<TabAdapter<StringHasher<DEK>>>(rest, ctx, "table DEK"); break;
    case 8: history<TabAdapter<StringHasher<BP>>>(rest, ctx, "table BP"); break;
    case 9: history<TabAdapter<StringHasher<FNV>>>(rest, ctx, "table FNV"); break;
    case 10: history<TabAdapter<StringHasher<AP>>>(rest, ctx, "table AP"); break;
    case 11: history<TabAdapter<StringHasher<ES>>>(rest, ctx, "table ES"); break;
    default: history<MapAdapter>(rest, ctx, "string map"); break;
  }
}

const Property P = {"C07",
  "histories of up to 100 operations on two string maps or string hash tables (all hash functions), with keys that are short, up to 140000 bytes, have leading or trailing NUL bytes, or are known "
  "to have equal hashes, compared with std::map by lookups of present keys and near misses, iteration and size; non-trivial: at least 4 operations and a special key", gen, check,
  [] { g_Pool = collisions<StringHasher<SDBM>>(500000, 24); auto e = collisions<StringHasher<ELF>>(200000, 24); g_Pool.insert(g_Pool.end(), e.begin(), e.end());
       if (g_Pool.empty()) g_Pool.push_back("p"); }};

#elif defined(PROP_C21)
typedef StringHasher<ES> H;
Case gen(Src& s) {
  Op o("text");
  int style = (int)s.below(5); size_t n = s.len(s.rare(5) ? 400 : 80); std::string t;
  for (size_t i = 0; i < n; ++i) switch (style) {
    case 0: t += "abcxyzABCXYZ019.-_"[s.below(18)]; break;
    case 1: t += (char)s.below(256); break;
    case 2: t += s.p(70) ? '.' : (char)('a' + s.below(26)); break;
    case 3: t += (char)(32 + s.below(95)); break;
    default: t += (char)('a' + s.below(26)); break;
  }
  o.s = {t}; o.n = {(i64)s.below(t.size() + 1), (i64)s.below(t.size() + 1), (i64)s.bits(4), (i64)s.below(3)};
  return Case{o};
}
void check(const Case& c, Ctx& ctx) {
  H h;
  for (const Op& o : c) {
    locales::In in((u64)o.num(3));
    const std::string& t = o.str(0);
    size_t f = (u64)o.num(0) % (t.size() + 1), l = (u64)o.num(1) % (t.size() - f + 1);
    std::string sub = t.substr(f, l);
    uint32_t a = h(t);
    PBT_CHECK(H::may_include(h(sub), a), "the filter denies substring " << quote(sub) << " of " << quote(t));
    PBT_CHECK(H::may_include(a, a), "the filter denies a string in itself: " << quote(t));
    PBT_CHECK(H::may_include(h(""), a), "the filter denies the empty string in " << quote(t));
    // order and letter case do not matter
    std::string p = t; u64 q = (u64)o.num(2);
    for (size_t i = p.size(); i > 1; --i) { q = mix(q); std::swap(p[i - 1], p[q % i]); }
    PBT_CHECK(h(p) == a, "the characteristic depends on the order: " << quote(t) << " and " << quote(p));
    for (char& ch : p) { q = mix(q); if (q & 1) { if (ch >= 'a' && ch <= 'z') ch -= 32; else if (ch >= 'A' && ch <= 'Z') ch += 32; } }
    PBT_CHECK(h(p) == a, "the characteristic depends on letter case: " << quote(t) << " and " << quote(p));
    // what the characteristic is documented to record
    for (char x = 'a'; x <= 'z'; ++x) {
      bool in = t.find(x) != std::string::npos || t.find((char)(x - 32)) != std::string::npos;
      if (!in) PBT_CHECK(!H::may_include(h(std::string(1, x)), a), "the filter admits letter " << x << " in " << quote(t));
    }
    if (t.find_first_of("0123456789") == std::string::npos) PBT_CHECK(!H::may_include(h("7"), a), "the filter admits a digit in " << quote(t));
    size_t dots = 0; for (char x : t) dots += x == '.';
    if (dots < 15) PBT_CHECK(!H::may_include(h(std::string(dots + 1, '.')), a), "the filter admits " << dots + 1 << " dots in " << quote(t));
    if (dots >= 15) ctx.label("15 dots or more");
    if (l && l < t.size()) { ctx.nontrivial = true; ctx.label("proper substring"); }
  }
}
const Property P = {"C21",
  "generated strings (words, host names, dots, raw bytes, up to 400) and a substring of each, in three locales: the substring, the string and the empty string pass the filter; the characteristic is unchanged by permutation "
  "and change of case; letters, digits and dots the string lacks are denied; non-trivial: a proper non-empty substring", gen, check, nullptr};
#endif
} // namespace
const Property& pbt::property() { return P; }
