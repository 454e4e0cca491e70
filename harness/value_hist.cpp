// C04: histories over a set of JSON values against a model with value semantics.
#include <stdexcept>
#include "errors.hpp"
#include "json_eni.hpp"

using namespace pbt;
namespace {
enum { Slots = 4 };
enum K { U, B, I, S, A, O };
struct M {
  K k = U; bool b = false; std::string s; std::vector<M> a; std::map<std::string, M> o;
  size_t depth() const { size_t d = 0; for (auto& x : a) d = std::max(d, x.depth()); for (auto& x : o) d = std::max(d, x.second.depth()); return d + 1; }
  size_t nodes() const { size_t d = 1; for (auto& x : a) d += x.nodes(); for (auto& x : o) d += x.second.nodes(); return d; }
  bool defined() const { if (k == U) return false; for (auto& x : a) if (!x.defined()) return false; for (auto& x : o) if (!x.second.defined()) return false; return true; }
  size_t children() const { return k == A ? a.size() : k == O ? o.size() : 0; }
};

M fromRef(const jref::V& v) {
  M m;
  switch (v.kind) {
    case jref::Bool: m.k = B; m.b = v.b; break;
    case jref::Int: m.k = I; m.s = v.exact ? v.s : "5"; break;
    case jref::Str: m.k = S; m.s = v.s; break;
    case jref::Arr: m.k = A; for (auto& x : v.a) m.a.push_back(fromRef(x)); break;
    default: m.k = O; for (auto& x : v.o) m.o[x.first] = fromRef(x.second);
  }
  return m;
}
M fromDoc(const std::string& t) {
  jref::V v; if (jref::readPrefix(t, v)) return fromRef(v);
  M m; m.k = S; m.s = t; return m;
}
json::Value* build(const M& m, int way) {
  switch (m.k) {
    case B: return new json::Value(m.b);
    case I:
      if ((way & 1) && m.s.size() < 9) return new json::Value(atoi(m.s.c_str()));
      return new json::Value(eni::s256(m.s));
    case S: if ((way & 1) && m.s.find('\0') == std::string::npos) return new json::Value(m.s.c_str()); return new json::Value(m.s);
    case A: {
      json::Array a;
      for (auto& e : m.a) { json::Value* v = build(e, way >> 1); if (way & 2) a.push_back(*v); else a.emplace_back(*v); delete v; }
      json::Value* r = new json::Value(a); a.clear(); return r;      // the value has its own copy
    }
    case O: {
      json::Object o;
      for (auto& e : m.o) { json::Value* v = build(e.second, way >> 1); o[e.first] = *v; delete v; }
      json::Value* r = new json::Value(o);
      for (auto& e : m.o) o.erase(e.first);
      return r;
    }
    default: return new json::Value();
  }
}

std::string diff(const M& m, const json::Value& v, const std::string& at) {
  std::ostringstream e;
  static const char* names[] = {"undefined", "a boolean", "an integer", "a string", "an array", "an object"};
  bool is[] = {v.isUndefined(), v.isBoolean(), v.isInteger(), v.isString(), v.isArray(), v.isObject()};
  for (int i = 0; i < 6; ++i) if (is[i] != (i == m.k)) { e << at << ": expected " << names[m.k] << ", type is " << v.type(); return e.str(); }
  switch (m.k) {
    case U: break;
    case B: if (v.toBoolean() != m.b) e << at << ": expected " << m.b; break;
    case I: if (v.toInteger().str() != m.s) e << at << ": expected " << m.s << ", is " << v.toInteger().str(); break;
    case S: if (v.toString() != m.s) e << at << ": expected " << jcmp::show(m.s) << ", is " << jcmp::show(v.toString()); break;
    case A:
      if (v.toArray().size() != m.a.size()) { e << at << ": expected " << m.a.size() << " elements, has " << v.toArray().size(); break; }
      if (v.toArray().type() != json::ARRAY) { e << at << ": its array does not call itself an array"; break; }
      for (size_t i = 0; i < m.a.size(); ++i) {
        if (&v[(int)i] != &v.toArray()[(int)i]) { e << at << ": indexing gives another element"; break; }
        std::string d = diff(m.a[i], v.toArray()[(int)i], at + "[" + std::to_string(i) + "]"); if (!d.empty()) return d;
      }
      break;
    case O: {
      const json::Object& o = v.toObject();
      if (o.size() != m.o.size()) { e << at << ": expected " << m.o.size() << " members, has " << o.size(); break; }
      if (o.type() != json::OBJECT) { e << at << ": its object does not call itself an object"; break; }
      for (auto& x : m.o) {
        json::Object::const_iterator it = o.find(x.first), end = o.end();
        if (it == end) { e << at << ": member " << jcmp::show(x.first) << " is missing"; break; }
        if (&v[x.first] != &it->value()) { e << at << ": indexing gives another member"; break; }
        std::string d = diff(x.second, it->value(), at + "." + jcmp::show(x.first)); if (!d.empty()) return d;
      }
    }
  }
  return e.str();
}

// walk down both trees by a path of numbers; stops at a leaf or a zero
struct Node { json::Value* v; M* m; };
Node walk(json::Value* v, M* m, const std::vector<i64>& path, size_t from) {
  for (size_t i = from; i < path.size() && path[i] > 0 && m->children(); ++i) {
    size_t q = (size_t)(path[i] - 1) % m->children();
    if (m->k == A) { v = &v->asArray().at(q); m = &m->a[q]; }
    else { auto it = m->o.begin(); std::advance(it, q); v = &v->asObject().at(it->first); m = &it->second; }
  }
  return {v, m};
}

void check(const Case& c, Ctx& ctx) {
  struct Own { json::Value* v[Slots]; Own() { for (auto& x : v) x = new json::Value; } ~Own() { for (auto x : v) delete x; } } own;
  json::Value** v = own.v; M m[Slots];
  size_t copies = 0, mutations = 0, refused = 0, nested = 0;
  int step = 0;
  for (const Op& op : c) {
    const std::string& n = op.k; ++step;
    int i = (int)((u64)op.num(0) % Slots), j = (int)((u64)op.num(1) % Slots);
    u64 q = (u64)op.num(2); const size_t P0 = 3;   // path of numbers from here
    auto reset = [&](int k) { delete v[k]; v[k] = new json::Value; m[k] = M(); };
    size_t total = 0; for (auto& x : m) total += x.nodes();
    if (total > 3000 && n != "new") continue;
    if (n == "make") { M x = fromDoc(op.str(0)); json::Value* t = build(x, (int)(q & 255)); delete v[i]; v[i] = t; m[i] = x; }
    else if (n == "new") reset(i);
    else if (n == "copy") { if (i != j) { json::Value* t = new json::Value(*v[j]); delete v[i]; v[i] = t; m[i] = m[j]; ++copies; } }
    else if (n == "assign") { json::Value& r = (*v[i] = *v[j]); PBT_CHECK(&r == v[i], "assignment returns another value"); M x = m[j]; m[i] = x; ++copies; }
    else if (n == "move") { if (i != j) { json::Value* t = new json::Value(std::move(*v[j])); delete v[i]; v[i] = t; m[i] = m[j]; reset(j); ++copies; } }
    else if (n == "massign") { if (i != j) { *v[i] = std::move(*v[j]); m[i] = m[j]; reset(j); ++copies; } }
    else if (n == "mpart") {   // a part is moved over the whole, or out of a value that is then dropped
      Node x = walk(v[i], &m[i], op.n, P0);
      if (x.v != v[i]) { M t = *x.m; *v[j] = std::move(*x.v); if (i != j) reset(i); m[j] = t; ++copies; ++nested; }
    }
    else if (n == "return") { auto f = [&]() -> json::Value { json::Value t(*v[j]); return t; }; if (i != j) { delete v[i]; v[i] = new json::Value(f()); m[i] = m[j]; ++copies; } }
    else if (n == "extract" || n == "implant") {
      Node x = walk(v[i], &m[i], op.n, P0);
      if (x.v != v[i]) ++nested;
      if (n == "extract") { M t = *x.m; *v[j] = *x.v; m[j] = t; }
      else { M t = m[j]; *x.v = *v[j]; *x.m = t; ++mutations; }
      ++copies;
    }
    else if (n == "push") {
      Node x = walk(v[i], &m[i], op.n, P0);
      if (x.m->k == A) { M t = m[j]; if (q & 1) x.v->asArray().push_back(*v[j]); else x.v->asArray().emplace_back(*v[j]); x.m->a.push_back(t); ++mutations; if (x.v != v[i]) ++nested; }
      else if (x.m->k == O) { M t = m[j]; json::Value val(*v[j]); x.v->asObject()[op.str(0)] = val; x.m->o[op.str(0)] = t; ++mutations; if (x.v != v[i]) ++nested; }
      else if (x.m->k == S) { x.v->asString() += op.str(0); x.m->s += op.str(0); ++mutations; }
      else if (x.m->k == I) { eni::s256 t((int)(q % 1000)); x.v->asInteger() = t; x.m->s = std::to_string(q % 1000); ++mutations; }
    }
    else if (n == "drop") {
      Node x = walk(v[i], &m[i], op.n, P0);
      if (x.m->k == A && !x.m->a.empty()) { size_t p = q % x.m->a.size(); x.v->asArray().erase(p); x.m->a.erase(x.m->a.begin() + p); ++mutations; }
      else if (x.m->k == O && !x.m->o.empty()) {
        auto it = x.m->o.begin(); std::advance(it, q % x.m->o.size());
        PBT_CHECK(x.v->asObject().erase(it->first), "a member cannot be erased"); x.m->o.erase(it); ++mutations;
      }
      else if (x.m->k == S) { x.v->asString().clear(); x.m->s.clear(); ++mutations; }
    }
    else if (n == "clear") {
      Node x = walk(v[i], &m[i], op.n, P0);
      if (x.m->k == A) { x.v->asArray().clear(); x.m->a.clear(); ++mutations; }
    }
    else if (n == "wide") {   // beyond 16 bits
      size_t cnt = 65530 + q % 9000; u64 sel = (u64)op.num(3); M x; x.k = sel & 1 ? A : O;
      for (size_t p = 0; p < cnt; ++p) { M e; e.k = I; e.s = std::to_string(p); if (sel & 1) x.a.push_back(e); else x.o["k" + e.s] = e; }
      std::unique_ptr<json::Value> t(build(x, (int)(sel >> 2))), u(new json::Value(*t)), w(new json::Value(true)); *w = *u;
      std::string d = diff(x, *u, "a copy of a wide value"); PBT_CHECK(d.empty(), d); d = diff(x, *w, "an assigned wide value"); PBT_CHECK(d.empty(), d);
      const json::Value& cu = *u;
      if (sel & 1) {
        PBT_CHECK(cu[(int)cnt].isUndefined() && cu[(int)(cnt + 65536)].isUndefined() && cu[-1].isUndefined() && cu[-65536].isUndefined(), "a missing index of a wide array is not undefined");
        size_t p = cnt - 1 - sel % 600; u->asArray().erase(p); x.a.erase(x.a.begin() + p); u->asArray().push_back(*v[j]); x.a.push_back(m[j]);
      } else {
        PBT_CHECK(cu["k" + std::to_string(cnt)].isUndefined(), "a missing member of a wide object is not undefined");
        std::string gone = "k" + std::to_string(sel % cnt); PBT_CHECK(u->asObject().erase(gone), "a member of a wide object cannot be erased"); x.o.erase(gone);
        u->asObject()["more"] = *v[j]; x.o["more"] = m[j];
      }
      d = diff(x, *u, "a changed wide value"); PBT_CHECK(d.empty(), d);
      if (x.defined() && m[j].nodes() < 100) { std::string txt = jcmp::print(*u); jref::V back; PBT_CHECK(jref::readStrict(txt, back), "a printed wide value is not JSON"); d = diff(fromRef(back), *u, "a printed wide value"); PBT_CHECK(d.empty(), d); }
      json::Value moved(std::move(*u)); d = diff(x, moved, "a moved wide value"); PBT_CHECK(d.empty(), d);
      u.reset(); *t = *w; ctx.label("more than 65536 parts");
    }
    else if (n == "containers") {   // copies and assignments of the containers themselves
      if (m[i].k == A && m[j].k == A) {
        json::Array t(v[j]->toArray()); t.push_back(json::Value(3)); v[i]->asArray() = v[j]->toArray(); M x = m[j]; m[i] = x;
        M y = m[j]; M three; three.k = I; three.s = "3"; y.a.push_back(three);
        json::Value w(t); t.clear(); std::string d = diff(y, w, "copied array"); PBT_CHECK(d.empty(), d); ++copies;
      } else if (m[i].k == O && m[j].k == O) {
        json::Object t(v[j]->toObject()); t["new"] = json::Value(3); v[i]->asObject() = v[j]->toObject(); M x = m[j]; m[i] = x;
        M y = m[j]; M three; three.k = I; three.s = "3"; y.o["new"] = three;
        json::Value w(t); t.erase("new"); std::string d = diff(y, w, "copied object"); PBT_CHECK(d.empty(), d); ++copies;
      }
    }
    else if (n == "inner") {   // a container is assigned itself, or one of the same kind that it holds, at any depth
      std::vector<i64> path(op.n.begin() + std::min<size_t>(P0, op.n.size()), op.n.end()); size_t cut = path.empty() ? 0 : (size_t)(q % (path.size() + 1));
      Node x = walk(v[i], &m[i], std::vector<i64>(path.begin(), path.begin() + cut), 0), y = walk(x.v, x.m, path, cut);
      if (x.m->k == y.m->k && (x.m->k == A || x.m->k == O)) {
        M t = *y.m;
        if (x.m->k == A) { json::Array& r = (x.v->asArray() = y.v->toArray()); PBT_CHECK(&r == &x.v->toArray(), "assignment returns another array"); }
        else { json::Object& r = (x.v->asObject() = y.v->toObject()); PBT_CHECK(&r == &x.v->toObject(), "assignment returns another object"); }
        *x.m = t; ++copies; if (x.v != y.v) ctx.label("container assigned a part of itself");
      }
    }
    else if (n == "delegate") {
      M x; bool threw = false;
      eni::s256* bi = 0; json::Object* bo = 0; json::Array* ba = 0;
      try {
        switch (q % 3) {
          case 0: x.k = I; x.s = std::to_string(q % 977); bi = new eni::s256((int)(q % 977)); v[i]->delegate(*bi); break;
          case 1: x.k = O; { M t; t.k = S; t.s = op.str(0); x.o["k"] = t; } bo = new json::Object; (*bo)["k"] = json::Value(op.str(0)); v[i]->delegate(*bo); break;
          default: x.k = A; { M t; t.k = B; t.b = true; x.a.push_back(t); } ba = new json::Array; ba->push_back(json::Value(true)); v[i]->delegate(*ba); break;
        }
      } catch (const std::logic_error& e) { threw = true; errors::readable(e, "delegation"); }
      if (m[i].k == U) { PBT_CHECK(!threw, "an undefined value refuses a delegated object"); m[i] = x; }
      else { PBT_CHECK(threw, "a value of kind " << m[i].k << " accepts a delegated object"); ++refused; delete bo; delete ba; delete bi; }
    }
    else if (n == "index") {
      Node x = walk(v[i], &m[i], op.n, P0);
      const json::Value& cv = *x.v; const std::string key = op.str(0); int idx = (int)op.num(2);
      auto out = [&](const char* what, std::function<const json::Value*()> f, bool present, bool rightKind) {
        const json::Value* r = 0; bool threw = false;
        try { r = f(); } catch (const std::out_of_range&) { threw = true; }
        PBT_CHECK(!threw && r, "indexing by " << what << " raises");
        if (rightKind && present) PBT_CHECK(r != &cv, "indexing by a present " << what << " gives the container");   // the content is compared below
        else { PBT_CHECK(r->isUndefined(), "indexing by a missing " << what << ", or a value of kind " << x.m->k << ", is not undefined"); ++refused; }
      };
      out("key", [&] { return &cv[key]; }, x.m->k == O && x.m->o.count(key), x.m->k == O);
      out("index", [&] { return &cv[idx]; }, x.m->k == A && idx >= 0 && (size_t)idx < x.m->a.size(), x.m->k == A);
      if (x.m->k == A) { out("index", [&] { return &cv[(int)x.m->a.size()]; }, false, true); out("index", [&] { return &cv[-1]; }, false, true); }
      if (x.m->k == U) PBT_CHECK(x.v->isUndefined(), "indexing changes an undefined value");
    }
    for (int k = 0; k < Slots; ++k) {
      std::string d = diff(m[k], *v[k], "value " + std::to_string(k));
      PBT_CHECK(d.empty(), "after step " << step << " " << n << " " << i << " " << j << ": " << d);
      if (m[k].defined() && (k == i || k == j) && m[k].nodes() < 200) {
        std::string t = jcmp::print(*v[k]); jref::V back;
        PBT_CHECK(jref::readStrict(t, back), "printed value is not JSON: " << jcmp::show(t));
        M bm = fromRef(back); std::string d2 = diff(bm, *v[k], "printed value");
        PBT_CHECK(d2.empty(), "after " << n << ": " << d2);
      }
    }
  }
  if (nested) ctx.label("below the root");
  if (refused) ctx.label("refused access");
  if (copies) ctx.label("copied");
  size_t dep = 0; for (auto& x : m) dep = std::max(dep, x.depth());
  if (dep > 4) ctx.label("depth>4");
  ctx.nontrivial = copies >= 1 && mutations >= 1;
}

Case gen(Src& s) {
  static const std::vector<std::string> kinds = {"make", "make", "make", "copy", "copy", "assign", "assign", "move", "massign", "mpart", "return", "extract", "implant", "implant",
    "push", "push", "push", "push", "drop", "drop", "clear", "containers", "inner", "inner", "delegate", "index", "index", "new"};
  Case c;
  size_t n = 1 + s.below(std::min(s.size(), 60));
  for (size_t i = 0; i < n; ++i) {
    Op o(i < 2 ? std::string("make") : s.pick(kinds));
    o.n = {(i64)s.below(Slots), (i64)s.below(Slots), (i64)s.below(40)};
    if (o.k == "make") {
      o.n[2] = (i64)s.below(256);
      jref::GenOpt g; g.budget = (int)s.below(18); g.wsDensity = 0; g.rawControls = false; g.maxStr = 12;
      std::string t;
      if (s.p(60)) { jref::GenOpt h = g; h.budget = 6; t = s.p(50) ? "[" : "{\"a\":"; jref::genValue(s, h, 0, 3, t); if (t[0] == '[') { t += ","; jref::genValue(s, h, 0, 2, t); t += "]"; } else t += "}"; }
      else jref::genValue(s, g, 0, 4, t);
      o.s = {t};
    } else {
      size_t d = s.below(4); for (size_t q = 0; q < d; ++q) o.n.push_back((i64)s.below(5));
      o.s = {s.p(60) ? std::string(1, (char)('a' + s.below(3))) : jref::genBytes(s, 6)};
    }
    c.push_back(o);
  }
  if (!s.fromFuzzer() && s.below(1200) == 0) c.push_back(Op("wide", {(i64)s.below(Slots), (i64)s.below(Slots), (i64)s.below(20000), (i64)s.below(70000)}));
  return c;
}

#ifndef NO_PROPERTY
const Property P = {"C04",
  "histories of up to 60 operations on four JSON values: constructions, copies, moves, assignments (also to itself, from a part of itself, into a part of itself; of values and of the arrays and objects in them), mutations at any depth, delegation, and "
  "indexing by present and missing keys and indices; all four are compared with a model after every operation, and printed; non-trivial: at least a copy and a mutation", gen, check, nullptr};
#endif
} // namespace
#ifndef NO_PROPERTY
const Property& pbt::property() { return P; }
#endif
