// C06: histories of hash table operations against std::map.
// C08: lifetime of the keys and values stored in a hash table.
#include <adt/HashTable.h>
#include <algorithm>
#include <iterator>
#include <map>
#include <memory>
#include "errors.hpp"

using namespace pbt;

namespace {
enum { Slots = 3 };

// ------------------------------------------------------------------ hashers
struct HIdent { unsigned operator()(int k) const { return (unsigned)k; } };
struct HFew { unsigned operator()(int k) const { return (unsigned)k % 4; } };
struct HZero { unsigned operator()(int) const { return 0; } };
struct HOnes { unsigned operator()(int) const { return 0xffffffffu; } };
struct HHigh { unsigned operator()(int k) const { return (unsigned)k << 28; } };
struct HMul { unsigned operator()(int k) const { return (unsigned)k * 2654435761u; } };
struct HPair { unsigned operator()(int k) const { return (unsigned)(k >> 1) * 37u; } };
} // namespace

#if defined(PROP_C06)
namespace {
// an entry and an allocator of the user's own
template<class K, class V> struct OwnEntry {
  typedef K key_type; typedef V value_type;
  OwnEntry(const K& k) : m_Check(0x600d), m_K(k), m_V() { m_Pad[0] = 0; }
  ~OwnEntry() { m_Check = 0; }
  const K& key() const { PBT_CHECK(m_Check == 0x600d, "an entry of the user's own is used that is not alive"); return m_K; }
  K& key() { return m_K; }
  const V& value() const { PBT_CHECK(m_Check == 0x600d, "an entry of the user's own is used that is not alive"); return m_V; }
  V& value() { return m_V; }
  void setValue(const V& v) { m_V = v; }
private:
  int m_Check; char m_Pad[40]; K m_K; V m_V;
};
size_t g_OwnBlocks;
template<class T> struct OwnAlloc {
  T* allocate(size_t n, const void* key) { PBT_CHECK(n == 1 && key, "the allocator is not told what to allocate for"); ++g_OwnBlocks; return (T*)::operator new(n * sizeof(T)); }
  void deallocate(T* p, size_t = 0) { --g_OwnBlocks; ::operator delete(p); }
};
template<class H> struct Own : H {};
template<class H> struct TabOf { typedef eni::HashTable<int, int, H> type; };
template<class H> struct TabOf<Own<H>> { typedef eni::HashTable<int, int, H, OwnEntry, OwnAlloc> type; };
template<class H> struct World {
  typedef typename TabOf<H>::type Tab;
  typedef std::map<int, int> Model;
  Tab* t[Slots]; Model m[Slots];
  World() { for (auto& x : t) x = new Tab; }
  ~World() { for (auto x : t) delete x; }

  void put(int k, int key, int val, const char* op) {
    bool ex = !m[k].count(key);   // must be overwritten
    typename Tab::entry_type* e = t[k]->insert(key, ex);
    PBT_CHECK(e != 0 && e->key() == key, op << ": entry of another key");
    PBT_CHECK(ex == (m[k].count(key) != 0), op << ": insert(" << key << ") reports exist=" << ex << " with " << m[k].size() << " entries");
    if (ex) PBT_CHECK(e->value() == m[k][key], op << ": existing entry of " << key << " has value " << e->value());
    else PBT_CHECK(e->value() == 0, op << ": the new entry of " << key << " starts with value " << e->value());
    e->setValue(val); m[k][key] = val;
  }
  void del(int k, int key, const char* op) {
    bool had = m[k].erase(key) != 0;
    PBT_CHECK(t[k]->erase(key) == had, op << ": erase(" << key << ") of " << (had ? "a present" : "an absent") << " key");
  }
  void probe(int k, int key, const std::string& op, bool chains, u64 salt) {
    Tab& a = *t[k]; const Tab& c = a;
    typename Model::iterator r = m[k].find(key);
    typename Tab::iterator it = a.find(key); typename Tab::const_iterator ct = c.find(key);
    bool has = r != m[k].end();
    PBT_CHECK((it != a.end()) == has && (ct != c.end()) == has, op << ": find(" << key << ") with " << m[k].size() << " entries, expected " << has);
    if (has) {
      PBT_CHECK(it->key() == key && it->value() == r->second, op << ": find(" << key << ") gives " << it->key() << "=" << it->value() << ", expected " << r->second);
      PBT_CHECK(ct->key() == key && &ct->value() == &it->value() && &(*it) == &(*ct), op << ": constant find differs");
    }
    {  // copies and conversions of iterators are at the same place
      typename Tab::const_iterator cv = it; typename Tab::iterator i2, i3 = a.begin(), i4 = t[(k + 1) % Slots]->begin(); i2 = it; i3 = it; i4 = it;
      typename Tab::const_iterator c2 = c.begin(); c2 = ct;
      PBT_CHECK(cv == ct && i2 == it && i3 == it && i4 == it && c2 == ct && !(i2 != it) && typename Tab::iterator(it) == it, op << ": a copied or converted iterator of " << key << " is elsewhere");
    }
    if (!chains) return;
    H h; std::set<int> want, got;
    if (has) for (auto& e : m[k]) if (h(e.first) == h(key)) want.insert(e.first);
    PBT_CHECK(c.count(key) == want.size(), op << ": count(" << key << ") is " << c.count(key) << ", expected " << want.size());
    size_t n = 0;
    typename Tab::chain_iterator b = a.begin(key), e = a.end(key);
    if (has) PBT_CHECK(b != e && b->key() == key, op << ": walk of " << key << " does not start at it");
    for (; b != e && n <= want.size(); ++b, ++n) { got.insert(b->key()); PBT_CHECK(m[k][b->key()] == b->value(), op << ": walk of " << key << " sees a wrong value"); }
    PBT_CHECK(n == want.size() && got == want, op << ": walk of " << key << " visits " << n << " entries, expected " << want.size());
    n = 0;
    typename Tab::const_chain_iterator cb = c.begin(key), ce = c.end(key);
    for (; cb != ce && n <= want.size(); cb++, ++n) PBT_CHECK(want.count(cb->key()), op << ": constant walk of " << key << " visits " << cb->key());
    PBT_CHECK(n == want.size(), op << ": constant walk of " << key << " visits " << n << " entries, expected " << want.size());
    if (has) {  // a copy of a walk goes on by itself
      typename Tab::chain_iterator x = a.begin(key), y = x, z, v = x, u = t[(k + 1) % Slots]->begin(key); z = x; ++v; v = x; u = x;
      PBT_CHECK(x == y && z == y && v == y && u == y && v->key() == key && u->key() == key, op << ": a copied walk of " << key << " is elsewhere");
      typename Tab::chain_iterator w = y++;
      PBT_CHECK(w == x && y != x && x->key() == key, op << ": moving a copy of a walk of " << key << " moves the walk");
      PBT_CHECK(++z == y, op << ": the same step from the same place of a walk of " << key << " ends elsewhere");
      PBT_CHECK((size_t)std::distance(a.begin(key), a.end(key)) == want.size(), op << ": a walk of " << key << " has another length");
      // converted to one of constants under way, it goes on to the same end
      size_t steps = salt % 5, left = want.size(); typename Tab::chain_iterator p = a.begin(key); for (; steps-- && p != a.end(key); --left) ++p;
      typename Tab::const_chain_iterator q = p; size_t rest = 0; for (; q != c.end(key) && rest <= left; ++q) ++rest;
      PBT_CHECK(rest == left, op << ": a walk of " << key << " converted with " << left << " of " << want.size() << " entries left visits " << rest << " more");
    }
  }
  void verify(int k, const std::string& op, u64 salt, bool full) {
    Tab& a = *t[k]; const Tab& c = a; Model& r = m[k];
    PBT_CHECK(a.numOfEntries() == r.size(), op << ": " << a.numOfEntries() << " entries, expected " << r.size());
    PBT_CHECK(a.empty() == r.empty(), op << ": empty() is wrong");
    if (full || a.numOfBuckets() < 3000 || a.numOfBuckets() > 65536) {
      size_t tombs = 0, entries = 0;
      for (size_t i = 0; i < a.numOfBuckets(); ++i) { auto* e = c.bucket((unsigned)i).entry; if (e == Tab::Tombstone()) ++tombs; else if (e != Tab::EmptyBucket()) ++entries; }
      PBT_CHECK(entries == r.size() && tombs == a.numOfTombstones(), op << ": " << entries << " entries and " << tombs << " erased ones in the buckets, but counts of " << r.size() << " and " << a.numOfTombstones());
    }
    if (full || r.size() <= 40) {
      std::set<int> seen; size_t n = 0;
      for (typename Tab::iterator it = a.begin(), e = a.end(); it != e; ++it, ++n) {
        PBT_CHECK(n <= r.size(), op << ": iteration does not end");
        typename Model::iterator x = r.find(it->key());
        PBT_CHECK(x != r.end(), op << ": iteration gives absent key " << it->key());
        PBT_CHECK(x->second == (*it).value(), op << ": iteration gives " << it->key() << "=" << it->value() << ", expected " << x->second);
        PBT_CHECK(seen.insert(it->key()).second, op << ": iteration gives " << it->key() << " twice");
      }
      PBT_CHECK(n == r.size(), op << ": iteration visits " << n << " of " << r.size());
      n = 0;
      for (typename Tab::const_iterator it = c.begin(), e = c.end(); it != e; it++, ++n)
        PBT_CHECK(n < r.size() && seen.count(it->key()), op << ": constant iteration is wrong");
      PBT_CHECK(n == r.size(), op << ": constant iteration visits " << n << " of " << r.size());
      {  // standard algorithms, and a second pass gives the same
        std::vector<int> one, two;
        for (typename Tab::iterator it = a.begin(); it != a.end(); it++) one.push_back(it->key());
        for (const typename Tab::entry_type& e : c) two.push_back(e.key());
        PBT_CHECK(one == two, op << ": a second iteration differs from the first");
        PBT_CHECK((size_t)std::distance(a.begin(), a.end()) == r.size(), op << ": the distance from begin to end is not the number of entries");
        int want = (int)(salt % 7);
        PBT_CHECK(std::count_if(c.begin(), c.end(), [&](const typename Tab::entry_type& e) { return e.value() % 7 == want; }) ==
                  std::count_if(r.begin(), r.end(), [&](const std::pair<const int, int>& e) { return e.second % 7 == want; }), op << ": counting values differs");
        if (salt % 5 == 0) {  // the end is no entry
          typename Tab::iterator e = a.end(); typename Tab::const_iterator ce = c.end(); typename Tab::chain_iterator h = a.end(0); typename Tab::const_chain_iterator ch = c.end(0);
          const typename Tab::iterator f = e;
          errors::raises<std::logic_error>([&] { (void)e->key(); }, op + ": the key at the end"); errors::raises<std::logic_error>([&] { (void)(*ce).value(); }, op + ": the value at the constant end");
          errors::raises<std::logic_error>([&] { (void)f->key(); }, op + ": the key at the end"); errors::raises<std::logic_error>([&] { (void)h->value(); }, op + ": the value at the end of a walk");
          errors::raises<std::logic_error>([&] { (void)ch->value(); }, op + ": the value at the end of a constant walk"); errors::raises<std::logic_error>([&] { ++e; }, op + ": a step beyond the end");
        }
      }
      if (a.numOfBuckets()) PBT_CHECK(a.load_factor() == (float)r.size() / (float)a.numOfBuckets(), op << ": load_factor() is wrong");
      if (r.size() <= 400 || full) for (auto& x : r) probe(k, x.first, op, r.size() <= 24, mix(salt + x.first));
    } else {
      u64 q = salt; typename Model::iterator it = r.begin();
      for (int i = 0; i < 6; ++i) { q = mix(q + i); it = r.lower_bound((int)(q % 4000)); if (it != r.end()) probe(k, it->first, op, false, 0); }
    }
    for (int i = 0; i < 4; ++i) { salt = mix(salt + 11); probe(k, (int)(salt % 97) - 20, op, r.size() <= 400, salt); }
    probe(k, (int)(salt >> 13), op, r.size() <= 40, salt);
  }
};

template<class H> void history(const Case& c, Ctx& ctx, const char* name, bool collides) {
  typedef typename TabOf<H>::type Tab;
  World<H> w;
  ctx.label(name);
  size_t inserted = 0, erased = 0, copies = 0, maxN = 0;
  int step = 0;
  for (const Op& op : c) {
    const std::string& n = op.k; ++step;
    int k = (int)((u64)op.num(0) % Slots), j = (int)((u64)op.num(1) % Slots);
    int key = (int)op.num(2), val = (int)op.num(3);
    size_t cnt = (size_t)((u64)op.num(4) % (collides ? 150 : 200001));
    int stride = (int)((u64)op.num(5) % 300) + 1;
    const char* on = n.c_str();
    std::set<int> touched = {k};
    if (n == "put") { w.put(k, key, val, on); ++inserted; }
    else if (n == "del") { w.del(k, key, on); ++erased; }
    else if (n == "delsome") {   // a present key
      if (!w.m[k].empty()) { auto it = w.m[k].lower_bound(key); if (it == w.m[k].end()) it = w.m[k].begin(); w.del(k, it->first, on); ++erased; }
    }
    else if (n == "bulk") { for (size_t i = 0; i < cnt; ++i) w.put(k, key + (int)i * stride, val + (int)i, on); inserted += cnt; }
    else if (n == "bulkdel") { for (size_t i = 0; i < cnt; ++i) w.del(k, key + (int)i * stride, on); erased += cnt; }
    else if (n == "delall") { std::vector<int> ks; for (auto& x : w.m[k]) ks.push_back(x.first); for (int x : ks) w.del(k, x, on); erased += ks.size(); }
    else if (n == "churn") {  // fills the table with erased slots
      size_t m = cnt % 700;
      for (size_t i = 0; i < m; ++i) { int q = key + (int)i * stride; bool had = w.m[k].count(q); w.put(k, q, val, on); if (!had) w.del(k, q, on); }
      inserted += m; erased += m;
    }
    else if (n == "window") { // a sliding set of live keys
      size_t m = cnt % 700, width = 1 + (u64)op.num(6) % 12;
      for (size_t i = 0; i < m; ++i) { w.put(k, key + (int)i * stride, val, on); if (i >= width) w.del(k, key + (int)(i - width) * stride, on); }
      inserted += m; erased += m;
    }
    else if (n == "own") {   // keys and values that are the table's own
      typename Tab::iterator it = w.t[k]->find(key);
      if (it == w.t[k]->end()) it = w.t[k]->begin();
      if (it != w.t[k]->end()) {
        int q = it->key(); bool ex = false;
        it->setValue(it->value());
        PBT_CHECK(w.t[k]->insert(it->key(), ex) == &*it && ex, "inserting an own key adds it again");
        if (val % 2) { PBT_CHECK(w.t[k]->erase(it->key()), "erasing an entry by its own key fails"); w.m[k].erase(q); ++erased; }
      }
    }
    else if (n == "write") { typename Tab::iterator it = w.t[k]->find(key); if (it != w.t[k]->end()) { it->value() = val; w.m[k][key] = val; } }
    else if (n == "rehash") w.t[k]->rehash();
    else if (n == "rehashn") { w.t[k]->rehash(cnt % 5000); PBT_CHECK(w.t[k]->numOfBuckets() > 0 && w.t[k]->numOfBuckets() >= w.m[k].size(), "rehash leaves too few buckets"); }
    else if (n == "clear") { w.t[k]->clear(); w.m[k].clear(); }
    else if (n == "new") { delete w.t[k]; w.t[k] = new Tab; w.m[k].clear(); }
    else if (n == "newn") { delete w.t[k]; w.t[k] = new Tab(cnt % 300); w.m[k].clear(); }
    else if (n == "copy") { if (j != k) { delete w.t[k]; w.t[k] = new Tab(*w.t[j]); w.m[k] = w.m[j]; ++copies; touched.insert(j); } }
    else if (n == "move") {
      if (j != k) { delete w.t[k]; w.t[k] = new Tab(std::move(*w.t[j])); w.m[k].swap(w.m[j]); w.m[j].clear(); touched.insert(j);
                    w.t[j]->clear(); }   // the source may be used again
    }
    else if (n == "assign") { Tab& res = (*w.t[k] = *w.t[j]); PBT_CHECK(&res == w.t[k], "assignment returns another table"); std::map<int, int> mm(w.m[j]); w.m[k] = mm; ++copies; touched.insert(j); }
    else if (n == "massign") {
      Tab& res = (*w.t[k] = std::move(*w.t[j])); PBT_CHECK(&res == w.t[k], "assignment returns another table");
      if (j != k) { w.m[k].swap(w.m[j]); w.m[j].clear(); w.t[j]->clear(); touched.insert(j); }
    }
    maxN = std::max(maxN, w.m[k].size());
    for (int i : touched) w.verify(i, on, (u64)step * 7919 + op.num(2), w.m[i].size() <= 200);
    if (c.size() < 60 || step % 8 == 0) for (int i = 0; i < Slots; ++i) if (!touched.count(i) && w.m[i].size() < 50) w.verify(i, on, step, false);
  }
  for (int i = 0; i < Slots; ++i) w.verify(i, "end", 1, true);
  if (maxN >= 20) ctx.label("20 entries or more");
  if (maxN >= 1000) ctx.label("1000 entries or more");
  if (maxN >= 100000) ctx.label("100000 entries or more");
  if (copies) ctx.label("copied");
  ctx.nontrivial = inserted >= 3 && erased >= 1;
}

Case gen(Src& s) {
  static const std::vector<std::string> kinds = {
    "put", "put", "put", "put", "put", "put", "put", "del", "del", "delsome", "delsome", "delsome", "bulk", "bulkdel", "churn", "window", "delall", "own", "write", "rehash",
    "rehashn", "clear", "new", "newn", "copy", "move", "assign", "massign"};
  Case c;
  int h = (int)s.below(9);
  bool big = !s.fromFuzzer() && s.below(1000) == 0;
  if (big) h = s.p(60) ? 5 : 7;   // a hash that keeps neighbours together would take quadratic time
  c.push_back(Op("hasher", {h}));
  size_t n = big ? 3 + s.below(4) : 1 + s.below(s.size());
  int span = (int)s.pick(std::vector<int>{5, 20, 100, 1000000});
  int one = (int)s.below(Slots); bool focus = s.p(60);
  for (size_t i = 0; i < n; ++i) {
    Op o(s.pick(kinds));
    if (big) {
      static const std::vector<std::string> after = {"bulkdel", "bulkdel", "delall", "delall", "bulk", "copy", "assign", "move", "rehash", "window", "delsome", "put", "own", "clear"};
      o.k = i == 0 ? "bulk" : s.pick(after);
      o.n = {one, (i64)s.below(Slots), i ? (i64)s.below(30) : 0, (i64)s.below(1000), 120000 + (i64)s.below(80001), i ? (i64)s.below(2) : 0, (i64)s.below(64)};
      c.push_back(o); continue;
    }
    i64 cnt = big ? (i64)s.below(200001) : s.rare(4) ? (i64)s.below(3000) : (i64)s.below(30);
    o.n = {focus && s.p(85) ? one : (i64)s.below(Slots), (i64)s.below(Slots), (i64)s.below(span) - span / 5, (i64)s.below(1000), cnt,
           (i64)(s.p(70) ? s.below(3) : s.below(300)), (i64)s.below(64)};
    c.push_back(o);
  }
  return c;
}

void check(const Case& c, Ctx& ctx) {
  int h = 0; Case rest;
  for (const Op& o : c) { if (o.k == "hasher") h = (int)((u64)o.num(0) % 9); else rest.push_back(o); }
  switch (h) {
    case 0: history<HIdent>(rest, ctx, "identity hash", false); break;
    case 1: history<HFew>(rest, ctx, "four hash values", true); break;
    case 2: history<HZero>(rest, ctx, "constant hash 0", true); break;
    case 3: history<HOnes>(rest, ctx, "constant hash 2^32-1", true); break;
    case 4: history<HHigh>(rest, ctx, "hash in the high bits", true); break;
    case 5: history<HMul>(rest, ctx, "multiplicative hash", false); break;
    case 6: history<HPair>(rest, ctx, "pairs of equal hashes", false); break;
    case 7: history<Own<HMul>>(rest, ctx, "own entries and allocator", false); break;
    default: history<Own<HFew>>(rest, ctx, "own entries and allocator, four hash values", true); break;
  }
  size_t left = g_OwnBlocks; g_OwnBlocks = 0;
  PBT_CHECK(left == 0, "the allocator got back " << (i64)left << " blocks too few");
}

const Property P = {"C06",
  "histories of up to 100 operations (single and bulk insertions and erasures, sliding windows, churn that fills the table with erased slots, rehash to any size, copy, move, assignment, "
  "clear) on three tables with seven hash functions from good to constant, and with entries and an allocator of the user's own, up to 200000 entries, compared with std::map by lookup of present and absent keys, iteration and walks over equal hashes; "
  "non-trivial: at least 3 insertions and 1 erasure", gen, check, nullptr};
} // namespace

#elif defined(PROP_C08)

// Instrumented objects: every live one is in a registry.
#if defined(__SANITIZE_ADDRESS__) || defined(__clang__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif
namespace {
// blocks allocated inside table operations and not yet released
size_t Cap = 1 << 15;                          // more for the few large cases
std::vector<const volatile void*> g_Blocks; size_t g_Live = 0; bool g_On = false, g_Overflow = false;
size_t slotOf(const volatile void* p) { return (size_t)mix((u64)(size_t)p) % Cap; }
void onMalloc(const volatile void* p, size_t) {
  if (!g_On || !p) return;
  if (g_Live > Cap / 2) { g_Overflow = true; return; }
  size_t i = slotOf(p);
  while (g_Blocks[i] && g_Blocks[i] != (const volatile void*)1 && g_Blocks[i] != p) i = (i + 1) % Cap;
  if (g_Blocks[i] != p) { g_Blocks[i] = p; ++g_Live; }
}
void onFree(const volatile void* p) {
  if (!p || !g_Live) return;
  size_t i = slotOf(p), tries = 0;
  while (g_Blocks[i] && tries++ < Cap) { if (g_Blocks[i] == p) { g_Blocks[i] = (const volatile void*)1; --g_Live; return; } i = (i + 1) % Cap; }
}
struct Inside { bool old; Inside() : old(g_On) { g_On = true; } ~Inside() { g_On = old; } };
struct Outside { bool old; Outside() : old(g_On) { g_On = false; } ~Outside() { g_On = old; } };

struct Registry {
  std::unordered_set<const void*> live; std::string broken; u64 made = 0, ended = 0;
  void note(const std::string& s) { if (broken.empty()) broken = s; }
};
Registry* g_Reg;

template<int Tag> struct Obj {
  int v; unsigned magic; int* heap;
  static const char* what() { return Tag ? "value" : "key"; }
  Obj() : v(0) { born(); }
  explicit Obj(int x) : v(x) { born(); }
  Obj(const Obj& o) : v(0) { o.alive("copied"); v = o.v; born(); }
  Obj& operator=(const Obj& o) { alive("assigned to"); o.alive("assigned from"); v = o.v; *heap = v; return *this; }
  ~Obj() {
    Outside out;
    if (!g_Reg->live.erase(this)) g_Reg->note(std::string("a ") + what() + " that is not alive is destroyed");
    else { { Inside in; delete heap; } magic = 0xdead; ++g_Reg->ended; }
  }
  bool operator==(const Obj& o) const { alive("compared"); o.alive("compared"); return v == o.v; }
  void alive(const char* how) const {
    Outside out;
    if (!g_Reg->live.count(this) || magic != 0xa11fe) g_Reg->note(std::string("a ") + what() + " that is not alive is " + how);
  }
  void born() {
    magic = 0xa11fe;
    { Inside in; heap = new int(v); }
    Outside out; ++g_Reg->made;
    if (!g_Reg->live.insert(this).second) g_Reg->note(std::string("a ") + what() + " is constructed over a live one");
  }
};
typedef Obj<0> Key;
typedef Obj<1> Val;
int g_Hash;
struct Hasher { unsigned operator()(const Key& k) const {
  k.alive("hashed");
  switch (g_Hash) { case 0: return (unsigned)k.v; case 1: return (unsigned)k.v % 3; case 2: return 5; default: return (unsigned)k.v * 2654435761u; } } };

// an allocator that counts on its own
size_t g_Allocs, g_Deallocs;
template<class D> struct CountingAllocator : eni::MallocAllocator<D> {
  typedef eni::MallocAllocator<D> super;
  D* allocate(size_t n = 1, const void* u = 0) { ++g_Allocs; return super::allocate(n, u); }
  void deallocate(D* p, size_t n = 0) { if (p) ++g_Deallocs; super::deallocate(p, n); }
};

template<class Tab> void history(const Case& c, Ctx& ctx) {
  Registry reg; g_Reg = &reg;
  typedef std::map<int, std::pair<int, const void*>> Model;   // key: value, address of the entry
  size_t vast = 0; for (const Op& o : c) vast += o.k == "vast";
  g_Live = 0; Cap = vast ? 1 << 21 : 1 << 15; g_Overflow = false; g_Blocks.clear(); g_Blocks.resize(Cap);
  g_Allocs = g_Deallocs = 0;
  Tab* t[Slots]; Model m[Slots];
  for (auto& x : t) { Inside in; x = new Tab; }
  size_t erased = 0, inserted = 0, rehashed = 0, copied = 0;
  auto ok = [&](const std::string& op) { if (!reg.broken.empty()) fail(op + ": " + reg.broken); };
  auto verify = [&](int k, const std::string& op, bool fresh) {
    ok(op);
    Model& r = m[k];
    PBT_CHECK(t[k]->numOfEntries() == r.size(), op << ": " << t[k]->numOfEntries() << " entries, expected " << r.size());
    for (auto& e : r) {
      typename Tab::iterator it;
      { Key q(e.first); it = t[k]->find(q); }
      PBT_CHECK(it != t[k]->end(), op << ": key " << e.first << " is lost");
      const void* at = &*it;
      it->value().alive("found"); it->key().alive("found");
      PBT_CHECK(it->key().v == e.first && it->value().v == e.second.first && *it->value().heap == e.second.first,
                op << ": key " << e.first << " has value " << it->value().v << ", expected " << e.second.first);
      if (fresh) e.second.second = at;
      PBT_CHECK(e.second.second == at, op << ": the entry of key " << e.first << " has moved");
    }
    ok(op);
  };
  auto census = [&](const std::string& op) {   // exactly the stored keys and values are alive
    size_t want = 0;
    for (auto& r : m) want += 2 * r.size();
    PBT_CHECK(reg.live.size() == want, op << ": " << reg.live.size() << " keys and values are alive, expected " << want);
  };
  for (const Op& op : c) {
    const std::string& n = op.k;
    if (n == "hash") continue;
    int k = (int)((u64)op.num(0) % Slots), j = (int)((u64)op.num(1) % Slots);
    int key = (int)op.num(2), val = (int)op.num(3);
    size_t cnt = (size_t)((u64)op.num(4) % 200);
    bool fresh = false;
    auto put = [&](int q, int v) {
      bool ex = false; const void* e;
      { Key x(q); Val y(v); Inside in; typename Tab::entry_type* en = t[k]->insert(x, ex); en->setValue(y); e = en; }
      PBT_CHECK(ex == (m[k].count(q) != 0), n << ": wrong exist flag for key " << q);
      if (ex) PBT_CHECK(m[k][q].second == e, n << ": the entry of key " << q << " has moved");
      m[k][q] = std::make_pair(v, e); ++inserted;
    };
    auto del = [&](int q) {
      Key x(q); bool had = m[k].erase(q) != 0, got;
      { Inside in; got = t[k]->erase(x); }
      PBT_CHECK(got == had, n << ": erase of key " << q << " says " << got); erased += had;
    };
    if (n == "put") put(key, val);
    else if (n == "del") del(key);
    else if (n == "delsome") { if (!m[k].empty()) { auto it = m[k].lower_bound(key); if (it == m[k].end()) it = m[k].begin(); int q = it->first; del(q); } }
    else if (n == "own") {   // keys and values that are the table's own
      typename Tab::iterator it;
      { Key q(key); it = t[k]->find(q); }
      if (it == t[k]->end()) it = t[k]->begin();
      if (it != t[k]->end()) {
        int q = it->key().v; bool ex = false; const void* at = &*it; const void* got;
        { Inside in; it->setValue(it->value()); got = t[k]->insert(it->key(), ex); }
        PBT_CHECK(got == at && ex, "inserting an own key adds it again");
        if (val % 2) { bool gone; { Inside in; gone = t[k]->erase(it->key()); } PBT_CHECK(gone, "erasing an entry by its own key fails"); m[k].erase(q); ++erased; }
      }
    }
    else if (n == "bulk") for (size_t i = 0; i < cnt; ++i) put(key + (int)i, val + (int)i);
    else if (n == "bulkdel") for (size_t i = 0; i < cnt; ++i) del(key + (int)i);
    else if (n == "vast") { if ((g_Hash == 0 || g_Hash == 3) && m[k].size() < 1000) for (size_t i = 0, e = 66000 + (u64)op.num(4) % 40000; i < e; ++i) put((int)i, val + (int)i); }
    else if (n == "delall") { std::vector<int> ks; for (auto& x : m[k]) ks.push_back(x.first); for (int q : ks) del(q); }
    else if (n == "churn") for (size_t i = 0; i < cnt; ++i) { put(key + (int)i, val); del(key + (int)i); }
    else if (n == "rehash") { Inside in; t[k]->rehash(); ++rehashed; }
    else if (n == "rehashn") { Inside in; t[k]->rehash(cnt); ++rehashed; }
    else if (n == "clear") { { Inside in; t[k]->clear(); } m[k].clear(); }
    else if (n == "new") { { Inside in; delete t[k]; t[k] = new Tab(cnt % 20); } m[k].clear(); }
    else if (n == "copy") { if (j != k) { { Inside in; delete t[k]; t[k] = new Tab(*t[j]); } m[k] = m[j]; fresh = true; ++copied; } }
    else if (n == "assign") { { Inside in; *t[k] = *t[j]; } if (j != k) { m[k] = m[j]; fresh = true; } ++copied; }
    else if (n == "move") { if (j != k) { { Inside in; delete t[k]; t[k] = new Tab(std::move(*t[j])); t[j]->clear(); } m[k].swap(m[j]); m[j].clear(); } }
    else if (n == "massign") { { Inside in; *t[k] = std::move(*t[j]); if (j != k) t[j]->clear(); } if (j != k) { m[k].swap(m[j]); m[j].clear(); } }
    verify(k, n, fresh);
    if (k != j) verify(j, n, false);
    if (fresh && j != k) for (auto& e : m[k]) PBT_CHECK(e.second.second != m[j][e.first].second, n << ": the copy shares the entry of key " << e.first);
    census(n);
  }
  for (int k = 0; k < Slots; ++k) { { Inside in; delete t[k]; } m[k].clear(); ok("destruction"); census("destruction"); }
  PBT_CHECK(g_Allocs == g_Deallocs, "allocator: " << g_Allocs << " entries allocated, " << g_Deallocs << " released");
  if (!g_Overflow) PBT_CHECK(g_Live == 0, g_Live << " blocks allocated by the tables are never released");
  if (vast) ctx.label("more than 65536 entries");
  if (rehashed) ctx.label("rehashed");
  if (copied) ctx.label("copied");
  if (erased) ctx.label("erased");
  ctx.nontrivial = inserted >= 2 && (erased || rehashed || copied);
}

Case gen(Src& s) {
  static const std::vector<std::string> kinds = {
    "put", "put", "put", "put", "put", "del", "delsome", "delsome", "own", "own", "bulk", "bulkdel", "churn", "rehash", "rehashn", "clear", "new", "copy", "assign", "assign", "move", "massign"};
  Case c;
  bool vast = !s.fromFuzzer() && s.below(5000) == 0;
  c.push_back(Op("hash", {(i64)(vast ? 3 * s.below(2) : s.below(4)), (i64)s.below(2)}));
  size_t n = 1 + s.below(s.size());
  if (vast) {
    int k = (int)s.below(Slots), j = (k + 1) % Slots; n = 1 + s.below(3);
    c.push_back(Op("vast", {k, j, 0, (i64)s.below(1000), (i64)s.below(40000)}));
    for (size_t i = 0; i < n; ++i) c.push_back(Op(s.pick(std::vector<std::string>{"delall", "clear", "rehash", "copy", "assign", "massign", "new", "delsome", "put"}), {s.p(60) ? k : j, s.p(60) ? k : j, (i64)s.below(70000), (i64)s.below(1000), (i64)s.below(200)}));
    return c;
  }
  int span = (int)s.pick(std::vector<int>{4, 15, 60});
  for (size_t i = 0; i < n; ++i) {
    Op o(s.pick(kinds));
    o.n = {(i64)s.below(Slots), (i64)s.below(Slots), (i64)s.below(span), (i64)s.below(1000), (i64)(s.rare(10) ? s.below(200) : s.below(12))};
    c.push_back(o);
  }
  return c;
}

void check(const Case& c, Ctx& ctx) {
  g_Hash = 0; bool counting = false;
  for (const Op& o : c) if (o.k == "hash") { g_Hash = (int)((u64)o.num(0) % 4); counting = o.num(1) & 1; }
  if (counting) { ctx.label("counting allocator"); history<eni::HashTable<Key, Val, Hasher, eni::internal::Entry, CountingAllocator>>(c, ctx); }
  else { ctx.label("default allocator"); history<eni::HashTable<Key, Val, Hasher>>(c, ctx); }
}

const Property P = {"C08",
  "histories of up to 100 operations on three tables whose keys and values record their construction, use and destruction; after every operation exactly the stored ones are alive, "
  "entries have not moved, and after the end nothing is alive and every block is released; non-trivial: at least 2 insertions and an erasure, rehash or copy", gen, check,
  [] { __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); }};
} // namespace
#endif

const Property& pbt::property() { return P; }
