// C22: pointer iterators against positions in an array.
#include <adt/PointerIterator.h>
#include <algorithm>
#include <numeric>
#include <sys/mman.h>
#include "pbt.hpp"

using namespace pbt;
namespace {
struct Item { int v; short pad[3]; bool operator<(const Item& o) const { return v < o.v; } bool operator==(const Item& o) const { return v == o.v; } };
struct Byte { typedef unsigned char T; static T make(int v) { return (T)v; } static int get(const T& t) { return t; } };
struct Int { typedef int T; static T make(int v) { return v; } static int get(const T& t) { return t; } };
struct Rec { typedef Item T; static T make(int v) { Item i = {v, {1, 2, 3}}; return i; } static int get(const T& t) { return t.v; } };

template<class E> void history(const Case& c, Ctx& ctx) {
  typedef typename E::T T; typedef eni::PointerIterator<T> It; typedef eni::PointerIterator<const T> CIt;
  size_t n = 1; std::vector<T> v; std::vector<Op> ops;
  for (const Op& o : c) if (o.k == "array") { v.clear(); for (i64 x : o.n) v.push_back(E::make((int)((u64)x % 200))); } else ops.push_back(o);
  if (v.empty()) v.push_back(E::make(1));
  n = v.size();
  T* base = v.data();
  size_t pos[3] = {0, 0, n};
  It it[3] = {It(base), It(base), It(base + n)};
  CIt ct[3] = {CIt(base), CIt(base), CIt(base + n)};
  size_t moves = 0;
  for (const Op& o : ops) {
    const std::string& k = o.k;
    int i = (int)((u64)o.num(0) % 3), j = (int)((u64)o.num(1) % 3);
    It& a = it[i]; CIt& ca = ct[i]; size_t& p = pos[i];
    size_t to = (u64)o.num(2) % (n + 1);
    ptrdiff_t d = (ptrdiff_t)to - (ptrdiff_t)p;
    ++moves;
    if (k == "inc") { if (p < n) { It& r = ++a; CIt& rc = ++ca; ++p; PBT_CHECK(&r == &a && &rc == &ca, "++ returns another iterator"); } }
    else if (k == "inc2") { if (p < n) { It r = a++; CIt rc = ca++; PBT_CHECK(r == It(base + p) && rc == CIt(base + p), "postfix ++ returns another position"); ++p; } }
    else if (k == "dec") { if (p > 0) { It& r = --a; --ca; --p; PBT_CHECK(&r == &a, "-- returns another iterator"); } }
    else if (k == "dec2") { if (p > 0) { It r = a--; CIt rc = ca--; PBT_CHECK(r == It(base + p) && rc == CIt(base + p), "postfix -- returns another position"); --p; } }
    else if (k == "add") { It& r = (a += d); CIt& rc = (ca += d); p = to; PBT_CHECK(&r == &a && &rc == &ca, "+= returns another iterator"); }
    else if (k == "sub") { It& r = (a -= -d); ca -= -d; p = to; PBT_CHECK(&r == &a, "-= returns another iterator"); }
    else if (k == "plus") {
      It r = a + d; CIt rc = ca + d; PBT_CHECK(a == It(base + p), "+ moves its operand");
      PBT_CHECK(r == It(base + to) && rc == CIt(base + to), "+ " << d << " from " << p << " gives another position"); a = r; ca = rc; p = to;
    }
    else if (k == "minus") {
      It r = a - (size_t)-d; CIt rc = ca - (size_t)-d; PBT_CHECK(a == It(base + p), "- moves its operand");
      PBT_CHECK(r == It(base + to) && rc == CIt(base + to), "- " << -d << " from " << p << " gives another position"); a = r; ca = rc; p = to;
    }
    else if (k == "copy") { It& r = (a = it[j]); CIt x(ct[j]); ca = x; p = pos[j]; PBT_CHECK(&r == &a, "assignment returns another iterator"); }
    else if (k == "set") { if (p < n) { *a = E::make((int)to); PBT_CHECK(E::get(base[p]) == E::get(E::make((int)to)), "writing through an iterator misses"); } }
    else if (k == "setat") { if (to < n) { a[d] = E::make(i); PBT_CHECK(E::get(base[to]) == i, "writing through [] misses"); } }
    else if (k == "algo") {
      size_t f = std::min(p, to), l = std::max(p, to);
      std::vector<T> w = v; T* q = w.data();
      int key = (int)((u64)o.num(4) % 200); T x = E::make(key);
      It F(base + f), L(base + l); size_t mid = f + (l - f ? (u64)o.num(4) % (l - f + 1) : 0);
      switch ((u64)o.num(3) % 17) {
        case 0: std::sort(F, L); std::sort(q + f, q + l); break;
        case 1: std::reverse(F, L); std::reverse(q + f, q + l); break;
        case 2: std::rotate(F, It(base + mid), L); std::rotate(q + f, q + mid, q + l); break;
        case 3: PBT_CHECK(std::find(F, L, x) == It(base + (std::find(q + f, q + l, x) - q)), "find differs"); break;
        case 4: std::sort(F, L); std::sort(q + f, q + l); PBT_CHECK(std::lower_bound(F, L, x) - F == std::lower_bound(q + f, q + l, x) - (q + f), "lower_bound differs"); break;
        case 5: PBT_CHECK(std::count(CIt(base + f), CIt(base + l), x) == std::count(q + f, q + l, x), "count differs"); break;
        case 6: { std::vector<T> o2(l - f + 1, E::make(0)); std::copy(F, L, o2.begin()); PBT_CHECK(std::equal(q + f, q + l, o2.begin()), "copy differs"); break; }
        case 7: std::fill(F, L, x); std::fill(q + f, q + l, x); break;
        case 8: PBT_CHECK(std::distance(F, L) == (ptrdiff_t)(l - f) && std::distance(CIt(base + f), CIt(base + l)) == (ptrdiff_t)(l - f), "distance differs"); break;
        case 9: { It z = F; std::advance(z, (ptrdiff_t)(l - f)); PBT_CHECK(z == L, "advance differs"); std::advance(z, -(ptrdiff_t)(l - f)); PBT_CHECK(z == F, "advancing back differs"); break; }
        case 10: PBT_CHECK(std::max_element(F, L) - F == std::max_element(q + f, q + l) - (q + f), "max_element differs"); break;
        case 11: PBT_CHECK(std::unique(F, L) - F == std::unique(q + f, q + l) - (q + f), "unique differs"); break;
        case 12: std::stable_sort(F, L); std::stable_sort(q + f, q + l); break;
        case 13: std::make_heap(F, L); std::sort_heap(F, L); std::make_heap(q + f, q + l); std::sort_heap(q + f, q + l); break;
        case 14: if (l < n) { std::copy_backward(F, L, It(base + l + 1)); std::copy_backward(q + f, q + l, q + l + 1); } break;
        case 15: PBT_CHECK(std::is_sorted(CIt(base + f), CIt(base + l)) == std::is_sorted(q + f, q + l), "is_sorted differs"); break;
        default: { size_t z = 0; for (CIt y(base + f), e(base + l); y < e; ++y) z += E::get(*y); size_t y2 = 0; for (T* y = q + f; y < q + l; ++y) y2 += E::get(*y); PBT_CHECK(z == y2, "a sum differs"); }
      }
      for (size_t y = 0; y < n; ++y) PBT_CHECK(E::get(base[y]) == E::get(w[y]), "algorithm " << (u64)o.num(3) % 17 << " on [" << f << "," << l << ") differs at " << y);
      ctx.label("standard algorithm");
    }
    for (int x = 0; x < 3; ++x) {
      const It cx = it[x];
      if (pos[x] < n) {
        PBT_CHECK(&*it[x] == base + pos[x] && it[x].operator->() == base + pos[x] && &*cx == base + pos[x] && cx.operator->() == base + pos[x] &&
                  &*ct[x] == base + pos[x] && ct[x].operator->() == base + pos[x], "iterator " << x << " is not at " << pos[x] << " after " << k);
        for (size_t y = 0; y < n; y += 1 + n / 5)
          PBT_CHECK(&it[x][y - pos[x]] == base + y && &ct[x][y - pos[x]] == base + y, "[] from " << pos[x] << " misses " << y);
      }
      for (int y = 0; y < 3; ++y) {
        ptrdiff_t want = (ptrdiff_t)pos[x] - (ptrdiff_t)pos[y];
        PBT_CHECK(it[x] - it[y] == want && ct[x] - ct[y] == want, "distance from " << pos[y] << " to " << pos[x] << " is " << (it[x] - it[y]));
        PBT_CHECK((it[x] == it[y]) == (want == 0) && (it[x] != it[y]) == (want != 0) && (it[x] < it[y]) == (want < 0) && (it[x] > it[y]) == (want > 0) &&
                  (it[x] <= it[y]) == (want <= 0) && (it[x] >= it[y]) == (want >= 0), "comparison of positions " << pos[x] << " and " << pos[y] << " is wrong");
        PBT_CHECK((ct[x] == ct[y]) == (want == 0) && (ct[x] < ct[y]) == (want < 0) && (ct[x] >= ct[y]) == (want >= 0), "comparison of constant iterators is wrong");
        PBT_CHECK(it[y] + want == it[x] && it[x] - (size_t)want == it[y], "moving by the distance misses");
      }
    }
  }
  ctx.nontrivial = moves >= 3 && n >= 2;
}

// Positions so far apart that a distance does not fit 32 bits, over addresses that are never read.
template<class T> void far(const Case& c, Ctx& ctx) {
  typedef eni::PointerIterator<T> It; typedef eni::PointerIterator<const T> CIt;
  static const size_t bytes = 24ull << 30;
  static void* mem = mmap(0, bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (mem == MAP_FAILED) { ctx.label("no address space"); return; }
  T* base = (T*)mem; u64 n = bytes / sizeof(T);
  u64 pos[2] = {0, n}; It it[2] = {It(base), It(base + n)}; CIt ct[2] = {CIt(base), CIt(base + n)};
  size_t moves = 0;
  for (const Op& o : c) {
    if (o.k == "array") continue;
    int i = (int)((u64)o.num(0) % 2), j = 1 - i;
    u64 to = (u64)o.num(2) % (n + 1); ptrdiff_t d = (ptrdiff_t)to - (ptrdiff_t)pos[i];
    switch ((u64)o.num(1) % 4) {
      case 0: it[i] += d; ct[i] += d; break;
      case 1: it[i] -= -d; ct[i] -= -d; break;
      case 2: it[i] = it[i] + d; ct[i] = ct[i] + d; break;
      default: it[i] = it[i] - (size_t)-d; ct[i] = ct[i] - (size_t)-d;
    }
    pos[i] = to; ++moves;
    for (int x = 0; x < 2; ++x) {
      PBT_CHECK(it[x].operator->() == base + pos[x] && ct[x].operator->() == base + pos[x], "iterator is not at " << pos[x]);
      ptrdiff_t want = (ptrdiff_t)pos[x] - (ptrdiff_t)pos[1 - x];
      const It a = it[x], b = it[1 - x]; const CIt ca = ct[x], cb = ct[1 - x];
      PBT_CHECK(a - b == want && ca - cb == want && std::distance(b, a) == want, "distance from " << pos[1 - x] << " to " << pos[x] << " is " << (a - b));
      PBT_CHECK((a == b) == !want && (a != b) == !!want && (a < b) == (want < 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0) && (a >= b) == (want >= 0),
                "comparison of positions " << pos[x] << " and " << pos[1 - x] << " is wrong");
      PBT_CHECK((ca == cb) == !want && (ca != cb) == !!want && (ca < cb) == (want < 0) && (ca > cb) == (want > 0) && (ca <= cb) == (want <= 0) && (ca >= cb) == (want >= 0),
                "comparison of constant iterators at " << pos[x] << " and " << pos[1 - x] << " is wrong");
      PBT_CHECK(&it[x][(size_t)-want] == base + pos[1 - x] && &ct[x][(size_t)-want] == base + pos[1 - x], "[] misses over a distance of " << want);
    }
    if (pos[0] > pos[1] + (1ull << 31) || pos[1] > pos[0] + (1ull << 31)) ctx.label("distance over 2^31");
  }
  ctx.nontrivial = moves >= 2;
}

Case gen(Src& s) {
  if (s.rare(8)) {
    Case c; c.push_back(Op("type", {3 + (i64)s.below(3)}));
    size_t n = 2 + s.below(8);
    while (n--) {
      u64 to; static const std::vector<u64> edge = {0, 1, 1ull << 31, (1ull << 31) - 1, 1ull << 32, (1ull << 32) - 1, 3ull << 30, 3ull << 31, 24ull << 30, 2ull << 30, 6ull << 30};
      to = s.p(50) ? s.pick(edge) + s.below(3) : s.bits(5);
      c.push_back(Op("far", {(i64)s.below(2), (i64)s.below(4), (i64)to}));
    }
    return c;
  }
  static const std::vector<std::string> kinds = {"inc", "inc2", "dec", "dec2", "add", "sub", "plus", "minus", "copy", "set", "setat", "algo", "algo", "algo"};
  Case c; Op arr("array"); size_t len = 1 + s.len(150); int span = (int)s.pick(std::vector<int>{3, 20, 200});
  c.push_back(Op("type", {(i64)s.below(3)}));
  for (size_t i = 0; i < len; ++i) arr.n.push_back((i64)s.below(span));
  c.push_back(arr);
  size_t n = 1 + s.below(s.size());
  for (size_t i = 0; i < n; ++i) c.push_back(Op(s.pick(kinds), {(i64)s.below(3), (i64)s.below(3), (i64)s.below(256), (i64)s.below(17), (i64)s.below(256)}));
  return c;
}
void check(const Case& c, Ctx& ctx) {
  int t = 0; Case rest;
  for (const Op& o : c) if (o.k == "type") t = (int)((u64)o.num(0) % 6); else rest.push_back(o);
  switch (t) { case 0: history<Int>(rest, ctx); break; case 1: history<Byte>(rest, ctx); break; case 3: far<unsigned char>(rest, ctx); break; case 4: far<int>(rest, ctx); break; case 5: far<Item>(rest, ctx); break;
    default: history<Rec>(rest, ctx); }
}
const Property P = {"C22",
  "histories of up to 100 movements of three mutable and three constant iterators over arrays of up to 151 integers, bytes or structs, each compared with a position, and 17 standard algorithms compared with "
  "the same algorithm over plain pointers; movements over distances up to 2^34 elements; non-trivial: at least 3 operations on at least 2 elements", gen, check, nullptr};
} // namespace
const Property& pbt::property() { return P; }
