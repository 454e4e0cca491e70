// C27: what cannot be served is reported by the documented error, and changes nothing.
// Contents are built first; then come accesses that cannot be served.  Each error caught is sent on a
// journey (copies, assignments, rethrowing, nesting, other threads) while the objects live on or go.
#include <cstdint>
#include <adt/HashTable.h>
#include <adt/StringHashTable.h>
#include <adt/StringMap.h>
#include <adt/Vector.h>
#include <future>
#include <memory>
#include <set>
#include <thread>
#include "json_eni.hpp"
#include "errors.hpp"

using namespace pbt;
namespace {
#define DIAG(ID, MSG) MSG,
const char* const Texts[] = {
#include <diagnostic/DiagList.inc>
};
#undef DIAG
enum Kind { Plain, Memory, Logic, Length, Range };
const char* const KindName[] = {"exception", "bad_alloc", "logic_error", "length_error", "out_of_range"};

// the error is of the standard kind k, of no other, and says text
void judge(const std::exception_ptr& p, Kind k, const std::string& text, const std::string& what) {
  int seen = -1; std::string says;
  try { std::rethrow_exception(p); }
  catch (const std::length_error& e) { seen = Length; says = e.what(); }
  catch (const std::out_of_range& e) { seen = Range; says = e.what(); }
  catch (const std::invalid_argument& e) { seen = 100; says = e.what(); }
  catch (const std::domain_error& e) { seen = 101; says = e.what(); }
  catch (const std::logic_error& e) { seen = Logic; says = e.what(); }
  catch (const std::bad_alloc& e) { seen = Memory; says = e.what(); }
  catch (const std::runtime_error& e) { seen = 102; says = e.what(); }
  catch (const std::exception& e) { seen = Plain; says = e.what(); }
  catch (...) { }
  PBT_CHECK(seen == k, what << " is reported by " << (seen < 0 ? "something that is no std::exception" : seen > Range ? "another standard error" : KindName[seen]) << ", expected " << KindName[k]);
  PBT_CHECK(says == text, what << " is reported as '" << says << "', expected '" << text << "'");
  std::string again; try { std::rethrow_exception(p); } catch (const std::exception& e) { again = e.what(); }
  PBT_CHECK(again == text, what << ": the error caught as a std::exception says '" << again << "'");
}
// the steps any error can take
std::exception_ptr step(std::exception_ptr p, u64 s) {
  std::exception_ptr q;
  switch (s % 6) {
    case 0: try { std::rethrow_exception(p); } catch (...) { q = std::current_exception(); } break;
    case 1: try { try { std::rethrow_exception(p); } catch (const std::exception&) { throw; } } catch (...) { q = std::current_exception(); } break;
    case 2:
      try { try { std::rethrow_exception(p); } catch (...) { std::throw_with_nested(std::runtime_error("outer")); } }
      catch (const std::runtime_error& e) { try { std::rethrow_if_nested(e); } catch (...) { q = std::current_exception(); } }
      break;
    case 3: std::thread([&] { try { std::rethrow_exception(p); } catch (...) { q = std::current_exception(); } }).join(); break;
    case 4: {
      std::promise<int> pr; std::future<int> f = pr.get_future(); std::thread t([&] { pr.set_exception(p); });
      try { f.get(); } catch (...) { q = std::current_exception(); }
      t.join(); break;
    }
    default: {   // others come and go meanwhile
      for (int i = 0; i < 4; ++i) { try { if (i & 1) throw eni::LogicError<eni::Unknown>(); throw eni::OutOfRange<eni::Unimplemented>(); } catch (const std::exception& e) { std::string x(e.what()); x += x; } }
      q = p;
    }
  }
  p = nullptr;
  return q;
}
// and those of an error whose class is known
template<class E> std::exception_ptr own(std::exception_ptr p, u64 s) {
  try { std::rethrow_exception(p); }
  catch (E& e) {
    switch (s % 5) {
      case 0: { E c(e); return std::make_exception_ptr(c); }
      case 1: { E c; c = e; return std::make_exception_ptr(c); }
      case 2: { std::unique_ptr<E> a(new E(e)), b(new E(*a)); a.reset(); return std::make_exception_ptr(*b); }
      case 3: { E c(e), d(std::move(c)); return std::make_exception_ptr(std::move(d)); }
      default: { E c(e), d; d = std::move(c); c = d; return std::make_exception_ptr(c); }
    }
  }
}
template<class E> void thrown(Kind k, int id, const Op& o, Ctx& ctx) {
  std::string what = std::string("Exception<") + std::to_string(id) + ", " + KindName[k] + ">";
  E e; PBT_CHECK(std::string(e.what()) == Texts[id], what << " says '" << e.what() << "', expected '" << Texts[id] << "'");
  std::exception_ptr p; try { throw E(); } catch (...) { p = std::current_exception(); }
  judge(p, k, Texts[id], what);
  for (size_t i = 2; i < o.n.size(); ++i) { u64 s = (u64)o.n[i]; p = s & 1 ? own<E>(p, s >> 1) : step(p, s >> 1); judge(p, k, Texts[id], what + " on its way"); }
  ctx.label("errors of every class");
}
template<eni::DiagID ID> void byKind(u64 k, const Op& o, Ctx& c) {
  switch (k % 5) {
    case 0: thrown<eni::Exception<ID>>(Plain, ID, o, c); break;
    case 1: thrown<eni::BadAlloc<ID>>(Memory, ID, o, c); break;
    case 2: thrown<eni::LogicError<ID>>(Logic, ID, o, c); break;
    case 3: thrown<eni::LengthError<ID>>(Length, ID, o, c); break;
    default: thrown<eni::OutOfRange<ID>>(Range, ID, o, c);
  }
}
template<int N> struct Pick { static void go(int id, u64 k, const Op& o, Ctx& c) { if (id == N - 1) byKind<(eni::DiagID)(N - 1)>(k, o, c); else Pick<N - 1>::go(id, k, o, c); } };
template<> struct Pick<0> { static void go(int, u64, const Op&, Ctx&) {} };

struct HMul { unsigned operator()(int k) const { return (unsigned)k * 2654435761u; } };
typedef eni::HashTable<int, int, HMul> Tab;
typedef eni::StringMap<std::string> Map;
typedef eni::StringHashTable<int> STab;
struct Objects {
  eni::Vector<int> ints; eni::Vector<std::string> strs; Map map; Tab tab; STab stab; json::Value value;
  std::string text() const {
    std::ostringstream os;
    os << ints.size() << ' ' << ints.capacity() << ':'; for (int x : ints) os << x << ' ';
    os << strs.size() << ' ' << strs.capacity() << ':'; for (auto& x : strs) os << x << ' ';
    { Map::const_iterator i, e = map.end(); os << map.size() << ':'; for (i = map.begin(); i != e; ++i) os << i->key() << '=' << i->value() << ' '; }
    { Tab::const_iterator i, e = tab.end(); os << tab.numOfEntries() << ' ' << tab.numOfBuckets() << ' ' << tab.numOfTombstones() << ':'; for (i = tab.begin(); i != e; ++i) os << i->key() << '=' << i->value() << ' '; }
    { STab::const_iterator i, e = stab.end(); os << stab.numOfEntries() << ' ' << stab.numOfBuckets() << ' ' << stab.numOfTombstones() << ':'; for (i = stab.begin(); i != e; ++i) os << i->key() << '=' << i->value() << ' '; }
    os << value.type() << ' '; value.print(os);
    return os.str();
  }
};
struct Run {
  std::unique_ptr<Objects> o; Ctx& ctx; std::string before; size_t refused = 0;
  explicit Run(Ctx& c) : o(new Objects), ctx(c) {}
  template<class F> void must(Kind k, eni::DiagID id, const std::string& what, const Op& op, F f) {
    before = o->text(); std::exception_ptr p;
    try { f(); } catch (...) { p = std::current_exception(); }
    PBT_CHECK(p != nullptr, what << " raises no error");
    judge(p, k, Texts[id], what);
    std::string now = o->text();
    PBT_CHECK(now == before, what << " is refused and has changed something: " << jcmp::show(now) << ", before " << jcmp::show(before));
    for (size_t i = 2; i < op.n.size(); ++i) { p = step(p, (u64)op.n[i]); judge(p, k, Texts[id], what + ", its error on its way"); }
    if (op.num(0) & 64) { o.reset(new Objects); judge(p, k, Texts[id], what + ", when the object is gone"); }
    ++refused;
  }
  template<class T> void vector(eni::Vector<T>& v, const T& x, const Op& op) {
    const eni::Vector<T>& c = v; u64 r = (u64)op.num(1), sz = v.size();
    size_t past = sz + (r % 3 == 0 ? 0 : r % 3 == 1 ? r % 100 : (size_t)-1 / 2 + r % 7), beyond = past + 1;
    size_t most = v.max_size(), huge = r % 2 ? most + 1 + r % 5 : (size_t)-1 - r % 9;
    eni::Vector<T> other; other.push_back(x); const eni::Vector<T>& oc = other;
    switch ((u64)op.num(0) % 16) {
      case 0: must(Range, eni::InvalidVectorIndex, "at of an index outside", op, [&] { v.at(past); }); break;
      case 1: must(Range, eni::InvalidVectorIndex, "constant at of an index outside", op, [&] { c.at(past); }); break;
      case 2: must(Range, eni::InvalidVectorIndex, "insertion outside", op, [&] { v.insert(beyond, x); }); break;
      case 3: must(Range, eni::InvalidVectorIndex, "insertion of several outside", op, [&] { v.insert(beyond, 3, x); }); break;
      case 4: must(Range, eni::InvalidVectorIndex, "insertion of a range outside", op, [&] { v.insert(beyond, oc.begin(), oc.end()); }); break;
      case 5: must(Range, eni::InvalidVectorIndex, "insertion of a list outside", op, [&] { v.insert(beyond, {x, x}); }); break;
      case 6: must(Range, eni::InvalidVectorIndex, "erasure outside", op, [&] { v.erase(past); }); break;
      case 7: must(Range, eni::InvalidVectorIndex, "erasure of a range that ends outside", op, [&] { v.erase(sz ? r % sz : 0, beyond); }); break;
      case 8: must(Range, eni::InvalidVectorIndex, "erasure of a range turned round", op, [&] { size_t a = sz ? r % sz + 1 : 1; v.erase(a, a - 1); }); break;
      case 9: must(Length, eni::InvalidVectorSize, "reserve of an impossible size", op, [&] { v.reserve(huge); }); break;
      case 10: must(Length, eni::InvalidVectorSize, "resize to an impossible size", op, [&] { v.resize(huge); }); break;
      case 11: must(Length, eni::InvalidVectorSize, "resize with a value to an impossible size", op, [&] { v.resize(huge, x); }); break;
      case 12: must(Length, eni::InvalidVectorSize, "assignment of an impossible size", op, [&] { v.assign(huge, x); }); break;
      case 13: must(Length, eni::InvalidVectorSize, "insertion of impossibly many", op, [&] { v.insert(sz ? r % sz : 0, sz && r % 5 == 0 ? most - sz + 1 : huge, x); }); break;
      case 14: must(Length, eni::InvalidVectorSize, "construction of an impossible size", op, [&] { eni::Vector<T> n(huge); }); break;
      default: must(Length, eni::InvalidVectorSize, "construction of an impossible size with a value", op, [&] { eni::Vector<T> n(huge, x); });
    }
  }
  // iterators that stand nowhere: never set, at the end, walked there, copies of such
  template<class I> void nowhere(I i, const Op& op, bool walk, const char* what) {
    const I& c = i; std::string w = what;
    switch ((u64)op.num(0) % 6) {
      case 0: must(Logic, eni::InvalidIteratorEmpty, "*" + w, op, [&] { (void)*i; }); break;
      case 1: must(Logic, eni::InvalidIteratorEmpty, "constant *" + w, op, [&] { (void)*c; }); break;
      case 2: must(Logic, eni::InvalidIteratorEmpty, "-> of " + w, op, [&] { (void)i->value(); }); break;
      case 3: must(Logic, eni::InvalidIteratorEmpty, "constant -> of " + w, op, [&] { (void)c->key(); }); break;
      case 4: if (walk) must(Logic, eni::InvalidIteratorEmpty, "++" + w, op, [&] { ++i; }); break;
      default: if (walk) must(Logic, eni::InvalidIteratorEmpty, w + "++", op, [&] { i++; });
    }
    I e; PBT_CHECK(i == e, w << " has moved");
  }
  template<class I> I get(I first, I end, u64 how) {
    if (how % 3 == 0) return end;
    if (how % 3 == 1) return I();
    I i; for (i = first; i != end; ++i) {}
    return i;
  }
  template<class T> void iterators(T& t, const Op& op) {
    const T& c = t; u64 r = (u64)op.num(1);
    switch (r % 2) {
      case 0: nowhere<typename T::iterator>(get<typename T::iterator>(t.begin(), t.end(), r / 2), op, true, "an ended iterator"); break;
      default: nowhere<typename T::const_iterator>(get<typename T::const_iterator>(c.begin(), c.end(), r / 2), op, true, "an ended constant iterator");
    }
  }
  void chains(const Op& op) {
    const Tab& c = o->tab; u64 r = (u64)op.num(1); int k = (int)(r / 8 % 50);
    if (r % 2) { Tab::chain_iterator i = o->tab.begin(k), e = o->tab.end(k); if (r % 8 < 4) i = Tab::chain_iterator(); else { size_t n = 0; while (i != e && n++ < 1000) ++i; if (i != e) return; } nowhere(i, op, false, "an ended walk"); }
    else { Tab::const_chain_iterator i = c.begin(k), e = c.end(k); if (r % 8 < 4) i = Tab::const_chain_iterator(); else { size_t n = 0; while (i != e && n++ < 1000) ++i; if (i != e) return; } nowhere(i, op, false, "an ended constant walk"); }
  }
  void keys(const Op& op) {
    const Map& c = o->map; std::string key = op.str(0);
    if (c.find(key) != c.end()) key += "+"; 
    if (c.find(key) != c.end()) return;
    switch ((u64)op.num(0) % 3) {
      case 0: must(Range, eni::InvalidStringMapKey, "at of a missing key", op, [&] { o->map.at(key); }); break;
      case 1: must(Range, eni::InvalidStringMapKey, "constant at of a missing key", op, [&] { c.at(key); }); break;
      default: must(Range, eni::InvalidStringMapKey, "constant subscript of a missing key", op, [&] { c[key]; });
    }
  }
  void delegate(const Op& op) {
    if (o->value.isUndefined()) return;
    std::unique_ptr<json::Array> a(new json::Array); a->push_back(json::Value(op.str(0)));
    std::unique_ptr<json::Object> b(new json::Object); (*b)["k"] = json::Value(op.str(0));
    std::unique_ptr<eni::s256> n(new eni::s256(op.num(1)));
    switch ((u64)op.num(0) % 3) {
      case 0: must(Logic, eni::InvalidDelegateAssigned, "delegating an array to a value in use", op, [&] { o->value.delegate(*a); }); break;
      case 1: must(Logic, eni::InvalidDelegateAssigned, "delegating an object to a value in use", op, [&] { o->value.delegate(*b); }); break;
      default: must(Logic, eni::InvalidDelegateAssigned, "delegating a number to a value in use", op, [&] { o->value.delegate(*n); });
    }
    PBT_CHECK(a->size() == 1 && a->at(0).toString() == op.str(0) && b->size() == 1 && b->at("k").toString() == op.str(0) && *n == op.num(1), "what was handed in has changed");
  }
  void apply(const Op& op) {
    const std::string& k = op.k; u64 r = (u64)op.num(1); size_t n0 = refused;
    if (k == "throw") Pick<eni::NumberOfDiagIDs>::go((int)((u64)op.num(0) % eni::NumberOfDiagIDs), r, op, ctx);
    else if (k == "ints") for (u64 i = 0; i < r % 20; ++i) o->ints.push_back((int)(i + r));
    else if (k == "strs") for (u64 i = 0; i < r % 20; ++i) o->strs.push_back(op.str(0) + std::to_string(i));
    else if (k == "pop") { for (u64 i = 0; i < r % 7 && !o->ints.empty(); ++i) o->ints.pop_back(); for (u64 i = 0; i < r % 5 && !o->strs.empty(); ++i) o->strs.pop_back(); }
    else if (k == "map") for (u64 i = 0; i < r % 20; ++i) o->map[op.str(0) + std::to_string(i)] = op.str(0);
    else if (k == "unmap") for (u64 i = 0; i < r % 20; ++i) o->map.erase(op.str(0) + std::to_string(i));
    else if (k == "tab") { bool ex; for (u64 i = 0; i < r % 30; ++i) { o->tab.insert((int)(i * (r % 5 + 1)), ex)->setValue((int)r); o->stab.insert(op.str(0) + std::to_string(i), ex)->setValue((int)i); } }
    else if (k == "untab") for (u64 i = 0; i < r % 30; ++i) { o->tab.erase((int)i); o->stab.erase(op.str(0) + std::to_string(i)); }
    else if (k == "clear") { o->ints.clear(); o->strs.clear(); o->tab.clear(); o->stab.clear(); }
    else if (k == "value") { json::Parser p(op.str(0)); if (p) o->value = p.getRoot(); else o->value = json::Value(op.str(0)); }
    else if (k == "vi") vector<int>(o->ints, (int)r, op);
    else if (k == "vs") vector<std::string>(o->strs, op.str(0), op);
    else if (k == "it") iterators(o->tab, op);
    else if (k == "is") iterators(o->stab, op);
    else if (k == "im") iterators(o->map, op);
    else if (k == "ic") chains(op);
    else if (k == "key") keys(op);
    else if (k == "del") delegate(op);
    else if (k == "hash") must(Logic, eni::Unimplemented, "a hash function that does not exist", op, [&] { eni::internal::StringHasher<1000>()(op.str(0)); });
    if (refused != n0) ctx.label(k);
  }
};
void check(const Case& c, Ctx& ctx) {
  static const bool distinct = [] { std::set<std::string> s; for (auto t : Texts) { PBT_CHECK(*t, "an error without text"); s.insert(t); } return s.size() == eni::NumberOfDiagIDs; }();
  PBT_CHECK(distinct, "two errors have the same text");
  Run r(ctx);
  for (const Op& o : c) { r.apply(o); if (o.k == "throw") ctx.nontrivial = ctx.nontrivial || o.n.size() > 3; }
  if (r.refused) ctx.nontrivial = true;
}
Case gen(Src& s) {
  static const std::vector<std::string> build = {"ints", "strs", "pop", "map", "unmap", "tab", "tab", "untab", "clear", "value", "value"};
  static const std::vector<std::string> bad = {"vi", "vi", "vs", "vs", "it", "is", "im", "ic", "key", "del", "throw", "throw", "hash"};
  static const std::vector<std::string> docs = {"[]", "{}", "[1,\"two\",[3]]", "{\"k\":[true,{}]}", "false", "-17", "\"text\"", "plain"};
  Case c; size_t n = 1 + s.len(24);
  for (size_t i = 0; i < n; ++i) {
    bool b = s.p(45); Op o(s.pick(b ? build : bad));
    o.n = {(i64)s.below(s.p(20) ? 128 : 64), (i64)s.below(1000)};
    if (!b) for (size_t j = s.below(5); j--;) o.n.push_back((i64)s.below(60));
    if (o.k == "value") o.s = {s.pick(docs)};
    else { std::string key; for (size_t j = s.below(4); j--;) key += (char)('a' + s.below(3)); if (s.rare(10)) key += '\0'; o.s = {key}; }
    c.push_back(o);
  }
  return c;
}
const Property P = {"C27", "histories that fill two vectors, two hash tables, a string map and a value, with accesses in between that cannot be served (19 of vectors, 6 of each kind of iterator, 3 of maps, 3 of values, 1 of hash functions) and errors of all diagnoses and kinds; "
  "each error goes through up to four of 11 steps (copies, assignments, moves, rethrowing, nesting, threads, futures); non-trivial: an access was refused, or an error took a step or more", gen, check, nullptr};
} // namespace
const Property& pbt::property() { return P; }
