// C31: the allocator of the containers, used for itself.
#include <support/MallocAllocator.h>   // first, as it has to find what it needs
#include <adt/StringMap.h>
#include <map>
#include <new>
#include <utility>
#include "pbt.hpp"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define GIVEN(p) __asan_address_is_poisoned(p)
#else
#define GIVEN(p) true
#endif

using namespace pbt;
namespace {
struct Wide { char c[24]; };
struct Odd { char c[7]; };
struct Big { char c[5000]; };
long g_Alive, g_Made;
struct Obj {
  u64 v; Obj* self;
  Obj() : v(77), self(this) { ++g_Alive; ++g_Made; }
  Obj(const Obj& o) : v(o.v), self(this) { ++g_Alive; ++g_Made; }
  ~Obj() { PBT_CHECK(self == this, "an object that is not there is destroyed"); self = 0; --g_Alive; }
};
struct Block { char* p; size_t bytes; int type; size_t n; u64 salt; std::vector<bool> made; };
void fill(const Block& b) { for (size_t i = 0; i < b.bytes && i < 65536; ++i) { size_t q = b.bytes <= 65536 || i < 32768 ? i : b.bytes - 65536 + i; b.p[q] = (char)mix(b.salt + q); } }
bool kept(const Block& b) { for (size_t i = 0; i < b.bytes && i < 65536; ++i) { size_t q = b.bytes <= 65536 || i < 32768 ? i : b.bytes - 65536 + i; if (b.p[q] != (char)mix(b.salt + q)) return false; } return true; }
typedef eni::internal::Entry<std::string, int> Entry;
struct World {
  std::map<char*, Block> live; Ctx& ctx; int step = 0;
  World(Ctx& c) : ctx(c) { g_Alive = 0; }
  void take(char* p, size_t bytes, int type, size_t n, u64 salt, size_t align, const std::string& what) {
    PBT_CHECK((size_t)p % align == 0, what << " is not aligned to " << align);
    auto hi = live.lower_bound(p);
    if (hi != live.end()) PBT_CHECK(p + (bytes ? bytes : 1) <= hi->first, what << " overlaps with what was handed out before");
    if (hi != live.begin()) { auto lo = std::prev(hi); PBT_CHECK(lo->first + (lo->second.bytes ? lo->second.bytes : 1) <= p, what << " overlaps with what was handed out before"); }
    Block b{p, bytes, type, n, salt, {}}; if (type == 4) b.made.resize(n); else fill(b);
    live[p] = b;
  }
  template<class T> void get(u64 n, u64 salt, int type) {
    eni::MallocAllocator<T> a; typename eni::MallocAllocator<T>::template rebind<T>::other b(a);
    std::ostringstream w; w << "room for " << n << " objects of " << sizeof(T) << " bytes";
    PBT_CHECK(a.max_size() == (size_t)-1 / sizeof(T), "max_size() for objects of " << sizeof(T) << " bytes is " << a.max_size());
    T* p = salt & 1 ? a.allocate(n) : b.allocate(n, live.empty() ? 0 : (void*)live.begin()->first);
    if (n > a.max_size()) { bool none = p == 0; if (p) a.deallocate(p); PBT_CHECK(none, w.str() << " is handed out, more than max_size()"); ctx.label("more than max_size()"); ctx.nontrivial = true; return; }
    if (!p) { PBT_CHECK(!n || n * sizeof(T) > 1u << 20, w.str() << " is refused"); ctx.label("refused"); if (n * sizeof(T) > 1ull << 40) ctx.nontrivial = true; return; }
    if (n * sizeof(T) > 64u << 20) { ((char*)p)[0] = 1; ((char*)p)[n * sizeof(T) - 1] = 2; a.deallocate(p, n); ctx.label("much"); return; }
    take((char*)p, n * sizeof(T), type, n, salt, alignof(T), w.str());
  }
  void get(int type, u64 n, u64 salt) {
    switch (type) {
      case 0: get<char>(n, salt, 0); break; case 1: get<u64>(n, salt, 1); break; case 2: get<Wide>(n, salt, 2); break; case 3: get<Odd>(n, salt, 3); break;
      case 4: get<Obj>(n, salt, 4); break; case 5: get<Big>(n, salt, 5); break;
      case 6: {   // an entry with a key
        eni::MallocAllocator<Entry> a; std::string key((size_t)(n % 3000), (char)salt); Entry* e = a.allocate(1, &key); PBT_CHECK(e, "room for an entry with a key of " << key.size() << " bytes is refused");
        ::new((void*)e) Entry(key); PBT_CHECK(e->key() == key && e->value() == 0, "an entry in the room for it has another key"); a.destroy(e);
        take((char*)e, sizeof(Entry) + key.size() + 1, 6, 1, salt, alignof(Entry), "room for an entry"); break;
      }
      default: {
        eni::MallocAllocator<void> a; void* p = a.allocate(n % 100000); std::ostringstream w; w << n % 100000 << " bytes";
        if (!p) { PBT_CHECK(n % 100000 == 0, w.str() << " are refused"); return; }
        take((char*)p, n % 100000, 7, n, salt, 1, w.str());
      }
    }
  }
  void give(Block& b, u64 how) {
    if (b.type == 4) { eni::MallocAllocator<Obj> a; for (size_t i = 0; i < b.n; ++i) if (b.made[i]) { PBT_CHECK(((Obj*)b.p)[i].v == b.salt + i || ((Obj*)b.p)[i].v == 77, "an object has changed"); a.destroy((Obj*)b.p + i); } }
    else PBT_CHECK(kept(b), "what was written to " << b.bytes << " bytes has changed, " << live.size() << " blocks later");
    switch (b.type) {   // another allocator of the type than the one it came from
      case 0: { eni::MallocAllocator<char> x, y(x), z; z = y; z.deallocate(b.p, how & 1 ? b.n : 0); break; }
      case 1: { eni::MallocAllocator<int>::rebind<u64>::other x; x.deallocate((u64*)b.p); break; }
      case 2: { eni::MallocAllocator<Wide> x, y(std::move(x)); x = std::move(y); x.deallocate((Wide*)b.p, b.n); break; }
      case 3: { eni::MallocAllocator<Odd> x; x.deallocate((Odd*)b.p); break; }
      case 4: { eni::MallocAllocator<Obj> x; x.deallocate((Obj*)b.p, b.n); break; }
      case 5: { eni::MallocAllocator<void>::rebind<Big>::other x; x.deallocate((Big*)b.p); break; }
      case 6: { eni::MallocAllocator<Entry> x; x.deallocate((Entry*)b.p); break; }
      default: { eni::MallocAllocator<void> x; x.deallocate(b.p, how & 1 ? b.bytes : 0); }
    }
    PBT_CHECK(GIVEN(b.p), "deallocate() keeps " << b.bytes << " bytes");
  }
};
void check(const Case& c, Ctx& ctx) {
  World w(ctx); long expect = 0;
  for (const Op& o : c) {
    if (o.k == "get") { u64 n = (u64)o.num(1); if (n > 40000 && n < (1ull << 48)) n %= 40000; w.get((int)((u64)o.num(0) % 8), n, (u64)o.num(2)); continue; }
    if (w.live.empty()) continue;
    auto it = w.live.begin(); std::advance(it, (u64)o.num(0) % w.live.size()); Block& b = it->second;
    if (o.k == "give") { for (bool x : b.made) expect -= x; w.give(b, (u64)o.num(1)); w.live.erase(it); if (w.live.size() > 2) ctx.nontrivial = true; }
    else if (o.k == "make" && b.type == 4 && b.n) {
      eni::MallocAllocator<Obj> a; size_t i = (u64)o.num(1) % b.n; Obj* p = (Obj*)b.p + i; if (b.made[i]) continue;
      long before = g_Made; PBT_CHECK(a.address(*p) == p && a.address(*(const Obj*)p) == p, "address() gives another place");
      if (o.num(2) & 1) a.construct(p); else { Obj x; x.v = b.salt + i; ++before; a.construct(p, x); }
      PBT_CHECK(p->self == p && p->v == (o.num(2) & 1 ? 77 : b.salt + i) && g_Made == before + 1, "construct() makes another object"); b.made[i] = true; ++expect; ctx.label("constructed"); ctx.nontrivial = true;
    } else if (o.k == "unmake" && b.type == 4 && b.n) {
      eni::MallocAllocator<Obj> a; size_t i = (u64)o.num(1) % b.n; if (!b.made[i]) continue;
      a.destroy((Obj*)b.p + i); b.made[i] = false; --expect;
    }
    PBT_CHECK(g_Alive == expect, g_Alive << " objects are alive, expected " << expect);
  }
  for (auto& x : w.live) { for (bool m : x.second.made) expect -= m; w.give(x.second, 0); }
  PBT_CHECK(g_Alive == 0 && expect == 0, g_Alive << " objects are left");
}
Case gen(Src& s) {
  Case c; size_t n = 2 + s.below(30);
  static const size_t sizes[] = {1, 8, 24, 7, sizeof(Obj), 5000, 1, 1};
  for (size_t i = 0; i < n; ++i) switch (s.weighted({6, 4, 4, 1})) {
    case 0: {
      int t = (int)s.below(8); u64 m = s.len(s.rare(10) ? 3000 : 40);
      if (s.rare(10) && t < 6) { u64 max = (u64)-1 / sizes[t]; m = s.p(50) ? max - s.below(3) + s.below(6) : max + 1 + s.below(200); if (s.rare(20)) m = (u64)-1 - s.below(100); if (s.rare(20)) m = (1ull << (48 + s.below(16))) + s.below(10); }
      c.push_back(Op("get", {t, (i64)m, (i64)s.bits(4)})); break;
    }
    case 1: c.push_back(Op("give", {(i64)s.below(50), (i64)s.below(2)})); break;
    case 2: c.push_back(Op("make", {(i64)s.below(50), (i64)s.below(40), (i64)s.below(2)})); break;
    default: c.push_back(Op("unmake", {(i64)s.below(50), (i64)s.below(40)}));
  }
  return c;
}
const Property P = {"C31", "programs of allocating (eight types, no objects to more than fit into the address space, string entries with keys), constructing, destroying and releasing in any order through other allocators of the type; "
  "non-trivial: a size beyond max_size(), a constructed object, or a release among several blocks", gen, check, nullptr};
} // namespace
const Property& pbt::property() { return P; }
