// C05: histories of vector operations against a sequence of element ids.
// C23: the same histories over elements whose life is followed.
#include <adt/Vector.h>
#include <eni.h>
#include <json/Array.h>
#include <json/Object.h>
#include <json/Value.h>
#include "errors.hpp"
#include "pbt.hpp"

#include <memory>

using namespace pbt;
extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace {

// An element type turns a small id into an element and tells whether an
// element is that of an id.  Id 0 is the default value.
struct IntElem {
  typedef int T;
  static const bool zeroed = true;
  static T make(int id) { return id * 7919; }
  static bool is(const T& t, int id) { return t == id * 7919; }
  static const char* name() { return "int"; }
};
struct CharElem {
  typedef unsigned char T;
  static const bool zeroed = true;
  static T make(int id) { return (unsigned char)id; }
  static bool is(const T& t, int id) { return t == (unsigned char)id; }
  static const char* name() { return "byte"; }
};
struct Pod { long a; char b[24]; short c; };
struct PodElem {
  typedef Pod T;
  static const bool zeroed = true;
  static T make(int id) { Pod p; memset(&p, 0, sizeof p); p.a = id * 1000003L; for (auto& c : p.b) c = (char)id; p.c = (short)-id; return p; }
  static bool is(const T& t, int id) {
    Pod p = make(id);
    return t.a == p.a && !memcmp(t.b, p.b, sizeof p.b) && t.c == p.c;
  }
  static const char* name() { return "struct"; }
};
struct JsonElem {
  typedef json::Value T;
  static const bool zeroed = false;   // a value is not made of zero bytes
  static T make(int id) {
    switch (id == 0 ? 9 : id % 4) {
      case 0: return T(eni::s256(id) << 130);
      case 1: return T("element " + std::to_string(id));
      case 2: { json::Array a; a.push_back(T(id)); a.push_back(T(std::to_string(id))); return T(a); }
      case 3: { json::Object o; o["k" + std::to_string(id)] = T(id); return T(o); }
      default: return T();
    }
  }
  static bool is(const T& t, int id) {
    switch (id == 0 ? 9 : id % 4) {
      case 0: return t.isInteger() && t.toInteger() == (eni::s256(id) << 130);
      case 1: return t.isString() && t.toString() == "element " + std::to_string(id);
      case 2: return t.isArray() && t.toArray().size() == 2 && t[0].isInteger() && t[0].toInteger() == id &&
                     t[1].isString() && t[1].toString() == std::to_string(id);
      case 3: return t.isObject() && t.toObject().size() == 1 && t["k" + std::to_string(id)].isInteger() &&
                     t["k" + std::to_string(id)].toInteger() == id;
      default: return t.isUndefined();
    }
  }
  static const char* name() { return "json value"; }
};

struct StrElem {     // short strings point into themselves: moving their bytes is not moving them
  typedef std::string T;
  static const bool zeroed = true;
  static T make(int id) { return id ? std::string((size_t)(id * 7 % 40), (char)('a' + id % 26)) + "#" + std::to_string(id) : T(); }
  static bool is(const T& t, int id) { return t == make(id); }
  static const char* name() { return "string"; }
};

// an element that knows where it lives
struct Tracked {
  static std::map<const Tracked*, int>& live() { static std::map<const Tracked*, int> l; return l; }
  static std::string& fault() { static std::string f; return f; }
  static void born(const Tracked* p) { if (!live().insert({p, 1}).second && fault().empty()) fault() = "an element is constructed over a living one"; }
  static void need(const Tracked* p, const char* what) { if (!live().count(p) && fault().empty()) fault() = what; }
  int id; std::unique_ptr<int> own; const Tracked* self;
  explicit Tracked(int i = 0) : id(i), own(new int(i)), self(this) { born(this); }
  Tracked(const Tracked& o) : id(o.id), own(), self(this) {
    need(&o, "an element that is not alive is copied"); own.reset(new int(o.own ? *o.own : -1)); born(this);
  }
  Tracked(Tracked&& o) : id(o.id), own(std::move(o.own)), self(this) { need(&o, "an element that is not alive is moved from"); o.id = -1; born(this); }
  Tracked& operator=(const Tracked& o) {
    need(this, "something that is not an element is assigned to"); need(&o, "an element that is not alive is assigned");
    if (this != &o) { id = o.id; own.reset(new int(o.own ? *o.own : -1)); }
    return *this;
  }
  Tracked& operator=(Tracked&& o) {
    need(this, "something that is not an element is assigned to"); need(&o, "an element that is not alive is assigned");
    if (this != &o) { id = o.id; own = std::move(o.own); o.id = -1; }
    return *this;
  }
  ~Tracked() { if (!live().erase(this) && fault().empty()) fault() = "an element is destroyed twice, or was none"; }
};
struct TrackedElem {
  typedef Tracked T;
  static const bool zeroed = true;
  static T make(int id) { return Tracked(id); }
  static bool is(const T& t, int id) { return Tracked::live().count(&t) && t.self == &t && t.id == id && t.own && *t.own == id; }
  static const char* name() { return "tracked"; }
};

template<class F> int outcome(F f) {   // 0 returned, 1 out of range, 2 length error, 3 allocation failure
  try { f(); return 0; }
  catch (const std::out_of_range& e) { errors::readable(e, "refused access"); return 1; }
  catch (const std::length_error& e) { errors::readable(e, "refused size"); return 2; }
  catch (const std::bad_alloc& e) { errors::readable(e, "failed allocation"); return 3; }
}

enum { Slots = 3 };

template<class E> struct World {
  typedef typename E::T T;
  typedef eni::Vector<T> Vec;
  typedef std::vector<int> Model;
  Vec* v[Slots];
  Model m[Slots];
  World() { for (auto& x : v) x = new Vec; }
  ~World() { for (auto x : v) delete x; }

  void verify(int k, const Op& op) {
    Vec& a = *v[k]; const Vec& c = a; Model& r = m[k];
#define WHERE " after " << op.k << " in vector " << k << " of " << E::name()
    PBT_CHECK(a.size() == r.size(), "size " << a.size() << ", expected " << r.size() << WHERE);
    PBT_CHECK(a.empty() == r.empty(), "empty() is wrong" << WHERE);
    PBT_CHECK(a.capacity() >= a.size(), "capacity " << a.capacity() << " below size " << a.size() << WHERE);
    PBT_CHECK(a.max_size() >= a.size(), "max_size below size" << WHERE);
    if (std::is_same<T, Tracked>::value) PBT_CHECK(Tracked::fault().empty(), Tracked::fault() << WHERE);
    for (size_t i = 0; i < r.size(); ++i)
      PBT_CHECK(E::is(c[i], r[i]), "element " << i << " of " << r.size() << " is not " << r[i] << WHERE);
    size_t i = 0;
    for (typename Vec::const_iterator it = c.begin(), e = c.end(); it != e; ++it, ++i)
      PBT_CHECK(i < r.size() && &*it == &c[i], "const iteration leaves the sequence at " << i << WHERE);
    PBT_CHECK(i == r.size(), "const iteration visits " << i << WHERE);
    i = 0;
    for (T& t : a) { PBT_CHECK(i < r.size() && &t == &a[i], "iteration leaves the sequence at " << i << WHERE); ++i; }
    PBT_CHECK(i == r.size(), "iteration visits " << i << WHERE);
    if (!r.empty()) {
      PBT_CHECK(&a.front() == &c[0] && &a.back() == &c[r.size() - 1] && a.data() == &a[0] &&
                &a.at(r.size() - 1) == &c[r.size() - 1] && &c.at(0) == &c[0], "accessors disagree" << WHERE);
    }
    PBT_CHECK(outcome([&] { c.at(r.size()); }) == 1, "at(size) does not raise out of range" << WHERE);
  }
  // an argument: an id, or a reference to an own element
  struct Arg { T copy; const T* p; int id; };
  void arg(Arg& a, int k, i64 own, int id) {
    Model& r = m[k];
    if (own && !r.empty()) { size_t i = (size_t)own % r.size(); a.p = &(*v[k])[i]; a.id = r[i]; }
    else { a.copy = E::make(id); a.p = &a.copy; a.id = id; }
  }
};

const size_t HUGE_N[] = {(size_t)-1, (size_t)-2, (size_t)1 << 63, ((size_t)1 << 63) - 1, ((size_t)1 << 61) + 1, (size_t)1 << 60,
                         (size_t)1 << 62, ((size_t)1 << 58), (size_t)1 << 50, ((size_t)1 << 56) + 3, (size_t)-100};

template<class E> void history(const Case& c, Ctx& ctx) {
  typedef typename E::T T;
  typedef eni::Vector<T> Vec;
  World<E> w;
  ctx.label(E::name());
  size_t grown = 0, refused = 0, aliased = 0;
  for (const Op& op : c) {
    const std::string& n = op.k;
    int k = (int)((u64)op.num(0) % Slots), j = (int)((u64)op.num(1) % Slots);
    Vec& a = *w.v[k]; std::vector<int>& r = w.m[k];
    size_t sz = r.size();
    int id = (int)((u64)op.num(2) % 250);
    size_t cnt = (size_t)((u64)op.num(3) % 70);
    size_t pos = (size_t)((u64)op.num(4) % (sz + 1));      // 0..size
    i64 own = op.num(5) & 1 ? (op.num(5) >> 1 & 0xffff) + 1 : 0;
    bool byIt = op.num(6) & 1;
    size_t cap0 = a.capacity();
    typename World<E>::Arg x;
    if (n == "new") { delete w.v[k]; w.v[k] = new Vec; r.clear(); }
    else if (n == "newn") {
      delete w.v[k];
      if (E::zeroed) { w.v[k] = new Vec(cnt); r.assign(cnt, 0); }
      else { w.v[k] = new Vec(cnt, E::make(id)); r.assign(cnt, id); }
    }
    else if (n == "newnv") {
      w.arg(x, j, own, id); T val = *x.p;
      delete w.v[k]; w.v[k] = new Vec(cnt, val); r.assign(cnt, x.id);
    }
    else if (n == "newstd") {
      std::vector<T> s; std::vector<int> mm;
      for (size_t i = 0; i < cnt; ++i) { mm.push_back((int)((id + i) % 250)); s.push_back(E::make(mm.back())); }
      delete w.v[k]; w.v[k] = new Vec(s); r = mm;
    }
    else if (n == "newcopy") { if (k != j) { delete w.v[k]; w.v[k] = new Vec(*w.v[j]); w.m[k] = w.m[j]; } }
    else if (n == "newilist") { delete w.v[k]; w.v[k] = new Vec{E::make(id), E::make(7), E::make(id + 1)}; r = {id, 7, id + 1}; }
    else if (n == "assignv") { Vec& res = a = *w.v[j]; PBT_CHECK(&res == &a, "assignment returns another vector"); w.m[k] = std::vector<int>(w.m[j]); }
    else if (n == "assignil") { if (cnt & 1) { a = {E::make(id), E::make(3)}; r = {id, 3}; } else { a.assign({E::make(5), E::make(id), E::make(9)}); r = {5, id, 9}; } }
    else if (n == "assignn") { w.arg(x, k, own, id); if (own && sz) ++aliased; int xi = x.id; a.assign(cnt, *x.p); r.assign(cnt, xi); }
    else if (n == "assignr") {
      const Vec& o = *w.v[j]; size_t os = w.m[j].size();
      size_t f = os ? (size_t)op.num(2) % (os + 1) : 0, l = f + (os - f ? cnt % (os - f + 1) : 0);
      if (k != j) {
        std::vector<int> mm(w.m[j].begin() + f, w.m[j].begin() + l);
        a.assign(o.begin() + f, o.begin() + l); r = mm;
      }
    }
    else if (n == "resize") { a.resize(cnt); r.resize(cnt, 0); }
    else if (n == "resizev") { w.arg(x, k, own, id); if (own && sz) ++aliased; int xi = x.id; a.resize(cnt, *x.p); r.resize(cnt, xi); }
    else if (n == "reserve") { a.reserve(cnt * 2); PBT_CHECK(a.capacity() >= cnt * 2, "reserve(" << cnt * 2 << ") leaves capacity " << a.capacity()); }
    else if (n == "shrink") a.shrink_to_fit();
    else if (n == "set") { if (sz) { w.arg(x, k, own, id); T t = *x.p; a[pos % sz] = t; r[pos % sz] = x.id; } }
    else if (n == "setat") { if (sz) { a.at(pos % sz) = E::make(id); r[pos % sz] = id; } }
    else if (n == "setend") { if (sz) { if (byIt) { a.front() = E::make(id); r.front() = id; } else { a.back() = E::make(id); r.back() = id; } } }
    else if (n == "setdata") { if (sz) { a.data()[pos % sz] = E::make(id); r[pos % sz] = id; } }
    else if (n == "setit") { if (sz) { *(a.begin() + pos % sz) = E::make(id); r[pos % sz] = id; } }
    else if (n == "push") {
      for (size_t i = 0; i <= cnt % 5; ++i) {
        w.arg(x, k, own, id); if (own && !r.empty()) ++aliased;
        int xi = x.id; size_t before = a.capacity(); a.push_back(*x.p); r.push_back(xi); if (a.capacity() != before) ++grown;
      }
    }
    else if (n == "emplace") { w.arg(x, k, own, id); if (own && sz) ++aliased; int xi = x.id; a.emplace_back(*x.p); r.push_back(xi); }
    else if (n == "pop") { if (sz) { T t = a.pop_back(); PBT_CHECK(E::is(t, r.back()), "pop_back returns another element"); r.pop_back(); } }
    else if (n == "insert") {
      w.arg(x, k, own, id); if (own && sz) ++aliased; int xi = x.id;
      if (byIt) { typename Vec::iterator it = a.insert(a.begin() + pos, *x.p); PBT_CHECK(it - a.begin() == (ptrdiff_t)pos, "insert returns another position"); }
      else a.insert(pos, *x.p);
      r.insert(r.begin() + pos, xi);
    }
    else if (n == "insertn") {
      w.arg(x, k, own, id); if (own && sz) ++aliased; int xi = x.id;
      if (byIt) { typename Vec::iterator it = a.insert(a.begin() + pos, cnt, *x.p); PBT_CHECK(it - a.begin() == (ptrdiff_t)pos, "insert returns another position"); }
      else a.insert(pos, cnt, *x.p);
      r.insert(r.begin() + pos, cnt, xi);
    }
    else if (n == "insertr") {
      if (k != j) {
        const Vec& o = *w.v[j]; size_t os = w.m[j].size();
        size_t f = (size_t)op.num(2) % (os + 1), l = f + (size_t)op.num(3) % (os - f + 1);
        if (byIt) { typename Vec::iterator it = a.insert(a.begin() + pos, o.begin() + f, o.begin() + l); PBT_CHECK(it - a.begin() == (ptrdiff_t)pos, "insert returns another position"); }
        else a.insert(pos, o.begin() + f, o.begin() + l);
        r.insert(r.begin() + pos, w.m[j].begin() + f, w.m[j].begin() + l);
      }
    }
    else if (n == "insertil") {
      if (byIt) { typename Vec::iterator it = a.insert(a.begin() + pos, {E::make(id), E::make(11), E::make(id)}); PBT_CHECK(it - a.begin() == (ptrdiff_t)pos, "insert returns another position"); }
      else a.insert(pos, {E::make(id), E::make(11), E::make(id)});
      std::vector<int> il = {id, 11, id}; r.insert(r.begin() + pos, il.begin(), il.end());
    }
    else if (n == "erase") {
      if (sz) {
        size_t p = pos % sz;
        if (byIt) { typename Vec::iterator it = a.erase(a.begin() + p); PBT_CHECK(it - a.begin() == (ptrdiff_t)p, "erase returns another position"); }
        else a.erase(p);
        r.erase(r.begin() + p);
      }
    }
    else if (n == "eraser") {
      if (sz) {
        size_t f = pos % sz, l = f + 1 + (size_t)op.num(3) % (sz - f);
        if (byIt) { typename Vec::iterator it = a.erase(a.begin() + f, a.begin() + l); PBT_CHECK(it - a.begin() == (ptrdiff_t)f, "erase returns another position"); }
        else a.erase(f, l);
        r.erase(r.begin() + f, r.begin() + l);
      }
    }
    else if (n == "swap") { a.swap(*w.v[j]); if (k != j) std::swap(w.m[k], w.m[j]); }
    else if (n == "clear") { a.clear(); r.clear(); }
    else if (n == "bad") {   // refused accesses leave everything as it was
      ++refused;
      T t = E::make(id);
      size_t past = sz + 1 + (size_t)(op.num(3) & 0xff) * (op.num(6) & 2 ? ((size_t)1 << 55) : 1);
      const Vec& ca = a; int got;
      switch ((u64)op.num(4) % 9) {
        case 0: got = outcome([&] { a.at(past - 1) = t; }); break;
        case 1: got = outcome([&] { ca.at(past - 1); }); break;
        case 2: got = outcome([&] { a.insert(past, t); }); break;
        case 3: got = outcome([&] { a.insert(past, cnt, t); }); break;
        case 4: { std::vector<T> s(2, t); got = outcome([&] { a.insert(past, &s[0], &s[0] + 2); }); break; }
        case 5: got = outcome([&] { a.insert(past, {t, t}); }); break;
        case 6: got = outcome([&] { a.erase(past - 1); }); break;
        case 7: got = outcome([&] { a.erase(pos, past); }); break;
        default: got = outcome([&] { a.erase(past - 1, past); }); break;
      }
      PBT_CHECK(got == 1, "position " << past << " of " << sz << " is not refused as out of range (case " << (u64)op.num(4) % 9 << ", outcome " << got << ")");
    }
    else if (n == "huge") {
      ++refused;
      size_t h = HUGE_N[(u64)op.num(3) % (sizeof HUGE_N / sizeof *HUGE_N)];
      if (h > ((size_t)-1) - sz) h = (size_t)-1 - sz;             // size + h itself does not wrap
      T t = E::make(id); int got;
      size_t want = h;
      switch ((u64)op.num(4) % 7) {
        case 5: got = outcome([&] { Vec q(h); }); break;
        case 6: got = outcome([&] { Vec q(h, t); }); break;
        case 0: got = outcome([&] { a.reserve(h); }); break;
        case 1: got = outcome([&] { a.resize(h); }); break;
        case 2: got = outcome([&] { a.resize(h, t); }); break;
        case 3: got = outcome([&] { a.assign(h, t); }); break;
        default: want = h + sz; got = outcome([&] { a.insert(pos, h, t); }); break;
      }
      PBT_CHECK(got == 2 || got == 3, "size " << h << " is not refused (case " << (u64)op.num(4) % 7 << ", outcome " << got << ")");
      if (want > a.max_size()) PBT_CHECK(got == 2, "size " << want << " above max_size is not refused with a length error");
      PBT_CHECK(a.capacity() == cap0, "a refused size changes the capacity");
    }
    else if (n == "bulk") {   // many elements at once
      size_t big = (u64)op.num(3) >= 1000 ? 65000 + (u64)op.num(3) % 75000 : 200 + (size_t)op.num(3) * 37 % 2500;
      w.arg(x, k, own, id); int xi = x.id;
      switch ((u64)op.num(4) % 4) {
        case 0: a.resize(big, *x.p); r.resize(big, xi); break;
        case 1: a.insert(pos, big, *x.p); r.insert(r.begin() + pos, big, xi); break;
        case 2: a.assign(big, *x.p); r.assign(big, xi); break;
        default: for (size_t i = 0; i < big; ++i) { a.push_back(E::make((int)(i % 250))); r.push_back((int)(i % 250)); } ++grown; break;
      }
      for (int i = 0; i < Slots; ++i) w.verify(i, op);
      if (big > 60000) {                                            // what is done to few elements, done to many
        ctx.label("more than 60000 elements");
        size_t n1 = r.size(), f = (size_t)((u64)op.num(4) * 40503 % n1);
        for (size_t i = 0; i < n1; i += 1 + i % 97) { a[i] = E::make((int)((i * 7) % 250)); r[i] = (int)((i * 7) % 250); }
        w.verify(k, op);
        std::vector<int> part(r.begin() + f, r.end());
        const Vec& ca = a;
        { Vec b; b.assign(ca.begin() + f, ca.end()); PBT_CHECK(b.size() == part.size(), "a range of " << part.size() << " becomes " << b.size());
          for (size_t i = 0; i < part.size(); ++i) PBT_CHECK(E::is(b[i], part[i]), "element " << i << " of a copied range is not " << part[i]); }
        { Vec b(a); b.shrink_to_fit(); PBT_CHECK(b.size() == n1 && E::is(b[n1 - 1], r.back()), "a copy of " << n1 << " elements has " << b.size());
          b.insert(b.begin() + f, ca.begin() + f, ca.end()); PBT_CHECK(b.size() == 2 * n1 - f && E::is(b[f], r[f]) && E::is(b[n1], r[f]) && E::is(b[2 * n1 - f - 1], r.back()), "inserting " << n1 - f << " elements at " << f << " gives " << b.size()); }
        a.erase(f); r.erase(r.begin() + f); w.verify(k, op);
        a.insert(f, E::make(id)); r.insert(r.begin() + f, id); w.verify(k, op);
        if (byIt) { a.erase(a.begin(), a.begin() + f); r.erase(r.begin(), r.begin() + f); w.verify(k, op); }
      }
      size_t keep = (size_t)op.num(2) % 9;                          // and back
      if (r.size() > keep) {
        if (byIt) { a.erase(keep, a.size()); } else a.resize(keep);
        r.resize(keep);
      }
    }
    for (int i = 0; i < Slots; ++i) w.verify(i, op);   // the others are untouched
    if (std::is_same<T, Tracked>::value) {
      size_t alive = 0; for (auto& q : w.m) alive += q.size();
      x.copy = T();
      PBT_CHECK(Tracked::live().size() == alive + 1, Tracked::live().size() - 1 << " elements are alive, " << alive << " are in vectors after " << n);
    }
  }
  if (grown) ctx.label("grows");
  if (refused) ctx.label("refused access");
  if (aliased) ctx.label("argument refers to own element");
  ctx.nontrivial = c.size() >= 5 && (grown || aliased || refused);
}

Case gen(Src& s) {
  static const std::vector<std::string> kinds = {
    "push", "push", "push", "push", "insert", "insert", "insertn", "insertr", "insertil", "erase", "erase", "eraser", "pop", "emplace",
    "resize", "resizev", "reserve", "assignv", "assignn", "assignr", "assignil", "set", "setat", "setend", "setdata", "setit", "swap",
    "clear", "bad", "huge", "new", "newn", "newnv", "newstd", "newcopy", "newilist", "shrink"};
  bool bulk = s.rare(4);
  Case c;
  if (!s.fromFuzzer() && s.below(4000) == 0) {   // beyond 16 bits
    c.push_back(Op("elem", {(i64)s.below(5)}));
    size_t m = 1 + s.below(3);
    for (size_t i = 0; i < m; ++i) c.push_back(Op(i == 0 || s.p(30) ? "bulk" : s.pick(kinds), {(i64)s.below(2), (i64)s.below(Slots), (i64)s.below(250), i == 0 || s.p(30) ? 1000 + (i64)s.below(75000) : (i64)s.below(70), (i64)s.below(70000), s.rare(35) ? 1 : 0, (i64)s.below(4)}));
    return c;
  }
  c.push_back(Op("elem", {(i64)s.below(5)}));
  size_t n = 1 + s.below(s.size());
  int one = (int)s.below(Slots); bool focus = s.p(50);
  for (size_t i = 0; i < n; ++i) {
    Op o(bulk && s.rare(6) ? "bulk" : s.pick(kinds));
    o.n = {focus && s.p(80) ? one : (i64)s.below(Slots), (i64)s.below(Slots), (i64)s.below(250), (i64)(s.rare(20) ? s.below(70) : s.below(5)), (i64)s.below(256),
           s.rare(35) ? (i64)(s.below(64) * 2 + 1) : 0, (i64)s.below(4)};
    c.push_back(o);
  }
  return c;
}

void check(const Case& c, Ctx& ctx) {
  int e = 0; Case rest;
  for (const Op& o : c) { if (o.k == "elem") e = (int)((u64)o.num(0) % 5); else rest.push_back(o); }
#if defined(PROP_C23)
  // all the memory is given back, whatever the elements; what is kept once (by a library, say) is not kept again
  auto run = [&](Ctx& x) {
    Tracked::fault().clear();
    switch (e) {
      case 0: history<JsonElem>(rest, x); break;
      case 1: history<StrElem>(rest, x); break;
      case 2: history<IntElem>(rest, x); break;
      default:
        history<TrackedElem>(rest, x);
        PBT_CHECK(Tracked::fault().empty(), Tracked::fault() << " at the end");
        PBT_CHECK(Tracked::live().empty(), Tracked::live().size() << " elements outlive their vectors");
        break;
    }
  };
  size_t kept = 0;
  for (int i = 0; i < 3; ++i) {
    size_t before = __sanitizer_get_current_allocated_bytes();
    { Ctx x; run(x); if (i == 0) { ctx.nontrivial = x.nontrivial; } }
    size_t after = __sanitizer_get_current_allocated_bytes();
    kept = after > before ? after - before : 0;
    if (i == 0) { for (const Op& o : rest) if (o.k == "bulk") { ctx.label("bulk"); break; } }
    if (!kept) break;
  }
  PBT_CHECK(kept == 0, kept << " bytes are not released");
  static const char* names[] = {"json value", "string", "int", "tracked", "tracked"};
  ctx.label(names[e]);
#else
  switch (e) {
    case 0: history<IntElem>(rest, ctx); break;
    case 1: history<JsonElem>(rest, ctx); break;
    case 2: history<PodElem>(rest, ctx); break;
    case 3: history<StrElem>(rest, ctx); break;
    default: history<CharElem>(rest, ctx); break;
  }
#endif
}

#if defined(PROP_C23)
const Property P = {"C23",
  "histories of up to 100 operations on three vectors of JSON values, strings, integers or elements that record their own construction, copying, moving and destruction; "
  "after every operation exactly the elements in the vectors are alive, each at its own address, and at the end all memory is released; "
  "non-trivial: at least 5 operations with a reallocation, a self-referring argument or a refused access", gen, check, nullptr};
#else
const Property P = {"C05",
  "histories of up to 100 operations on three vectors of integers, bytes, structs, strings or JSON values (appending, inserting and erasing by index and iterator, ranges, "
  "initializer lists, resizing, arguments that are own elements, positions past the end, sizes from 2^50 to 2^64-1), compared with std::vector after every operation; "
  "non-trivial: at least 5 operations with a reallocation, a self-referring argument or a refused access", gen, check, nullptr};
#endif
} // namespace

const Property& pbt::property() { return P; }
