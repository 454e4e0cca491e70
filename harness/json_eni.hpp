// Comparing the project's values with the reference, and building them.
#pragma once
#include "json_ref.hpp"
#include <eni.h>
#include <json/Array.h>
#include <json/Object.h>
#include <json/Parser.h>
#include <json/Value.h>

namespace jcmp {
using jref::V;

inline std::string show(const std::string& s) { return pbt::quote(s.size() > 200 ? s.substr(0, 200) + "..." : s); }

// "" when equal, else where and how they differ
inline std::string diff(const V& r, const json::Value& v) {
  std::ostringstream e; const char* at = "";   // the path is put together on the way back
  switch (r.kind) {
    case jref::Bool:
      if (!v.isBoolean()) { e << at << ": expected a boolean, type is " << v.type(); break; }
      if (v.toBoolean() != r.b) e << at << ": expected " << r.b;
      break;
    case jref::Int:
      if (!v.isInteger()) { e << at << ": expected an integer, type is " << v.type(); break; }
      if (r.exact && v.toInteger().str() != r.s) e << at << ": expected " << r.s << ", got " << v.toInteger().str();
      break;
    case jref::Str:
      if (!v.isString()) { e << at << ": expected a string, type is " << v.type(); break; }
      if (r.exact && v.toString() != r.s) e << at << ": expected " << show(r.s) << ", got " << show(v.toString());
      break;
    case jref::Arr: {
      if (!v.isArray()) { e << at << ": expected an array, type is " << v.type(); break; }
      const json::Array& a = v.toArray();
      if (a.size() != r.a.size()) { e << at << ": expected " << r.a.size() << " elements, got " << a.size(); break; }
      for (size_t i = 0; i < r.a.size(); ++i) {
        std::string d = diff(r.a[i], a[(int)i]);
        if (!d.empty()) return "[" + std::to_string(i) + "]" + d;
      }
      break;
    }
    case jref::Obj: {
      if (!v.isObject()) { e << at << ": expected an object, type is " << v.type(); break; }
      if (!r.exact) break;
      const json::Object& o = v.toObject();
      if (o.size() != r.o.size()) { e << at << ": expected " << r.o.size() << " members, got " << o.size(); break; }
      for (auto& m : r.o) {
        json::Object::const_iterator it = o.find(m.first), end = o.end();
        if (it == end) { e << at << ": no member " << show(m.first); break; }
        std::string d = diff(m.second, it->value());
        if (!d.empty()) return "." + show(m.first) + d;
        if (&o[m.first] != &it->value()) { e << at << ": find and [] give different members for " << show(m.first); break; }
      }
      size_t n = 0; std::set<std::string> seen;
      json::Object::const_iterator it, end = o.end();
      for (it = o.begin(); it != end && n <= r.o.size(); ++it, ++n) {
        if (!r.o.count(it->key())) { e << at << ": unexpected member " << show(it->key()); break; }
        seen.insert(it->key());
      }
      if (e.str().empty() && (n != r.o.size() || seen.size() != n)) e << at << ": iteration visits " << n << " members of " << r.o.size();
      break;
    }
  }
  return e.str();
}

// build through the public constructors; owned by the caller's Value
inline json::Value build(const V& r, bool deep) {
  switch (r.kind) {
    case jref::Bool: return json::Value(r.b);
    case jref::Int: return json::Value(eni::s256(r.s));
    case jref::Str: return json::Value(r.s);
    case jref::Arr: {
      if (deep) {
        json::Array* a = new json::Array;
        for (auto& e : r.a) { a->push_back(json::Value()); a->back() = build(e, true); }
        json::Value v; v.delegate(*a);
        return v;
      }
      json::Array a;
      for (auto& e : r.a) a.push_back(build(e, false));
      return json::Value(a);
    }
    default: {
      if (deep) {
        json::Object* o = new json::Object;
        for (auto& m : r.o) (*o)[m.first] = build(m.second, true);
        json::Value v; v.delegate(*o);
        return v;
      }
      json::Object o;
      for (auto& m : r.o) o[m.first] = build(m.second, false);
      return json::Value(o);
    }
  }
}
// by copies, or, when that would take quadratic time, by handing over each part
inline json::Value build(const V& r) { return build(r, r.depth() > 60); }

inline std::string print(const json::Value& v) { std::ostringstream os; v.print(os); return os.str(); }

// equality of reference values
inline bool same(const V& a, const V& b) {
  if (a.kind != b.kind) return false;
  switch (a.kind) {
    case jref::Bool: return a.b == b.b;
    case jref::Int: case jref::Str: return a.s == b.s;
    case jref::Arr:
      if (a.a.size() != b.a.size()) return false;
      for (size_t i = 0; i < a.a.size(); ++i) if (!same(a.a[i], b.a[i])) return false;
      return true;
    default:
      if (a.o.size() != b.o.size()) return false;
      for (auto& m : a.o) { auto it = b.o.find(m.first); if (it == b.o.end() || !same(m.second, it->second)) return false; }
      return true;
  }
}

} // namespace jcmp
