// A reader of JSON documents that remembers where every value stands.
#pragma once
#include "json_ref.hpp"

namespace ranged {
struct Node {
  jref::Kind kind = jref::Bool; size_t from = 0, to = 0;      // strings with their quotes
  std::string s;
  std::vector<std::pair<std::string, Node>> kids;              // keys are empty in arrays
};
// t holds a document; i stands at or before a value
inline Node read(const std::string& t, size_t& i) {
  auto ws = [&] { while (i < t.size() && strchr(" \t\r\n", t[i]) && t[i]) ++i; };
  auto str = [&](std::string& o) {
    size_t b = i++; while (t[i] != '"') i += t[i] == '\\' ? 2 : 1;
    ++i; jref::V v; jref::readPrefix(t.substr(b, i - b), v); o = v.s;
  };
  ws(); Node n; n.from = i;
  if (t[i] == '"') { n.kind = jref::Str; str(n.s); }
  else if (t[i] == '[') {
    n.kind = jref::Arr; ++i; ws();
    while (t[i] != ']') { n.kids.push_back({"", read(t, i)}); ws(); if (t[i] == ',') ++i; }
    ++i;
  } else if (t[i] == '{') {
    n.kind = jref::Obj; ++i; ws();
    while (t[i] != '}') { ws(); std::string k; str(k); ws(); ++i; n.kids.push_back({k, read(t, i)}); ws(); if (t[i] == ',') ++i; ws(); }
    ++i;
  } else {
    n.kind = t[i] == 't' || t[i] == 'f' ? jref::Bool : jref::Int;
    while (i < t.size() && !strchr(" \t\r\n,]}", t[i])) ++i;
  }
  n.to = i; return n;
}
inline std::string code(size_t a, size_t b) { char o[40]; snprintf(o, sizeof o, "%08zx%08zx", a, b); return o; }
inline std::string code(const Node& n) { return code(n.from, n.to); }
// the last member of that key
inline const Node* member(const Node& n, const std::string& k) { for (size_t i = n.kids.size(); i--;) if (n.kids[i].first == k) return &n.kids[i].second; return 0; }
inline bool navigable(const std::string& t) { jref::V v; jref::Reader r(t, false); if (!r.value(v)) return false; r.ws(); return r.atEnd() && !r.wideEscape && t.find('\0') == std::string::npos && (v.kind == jref::Arr || v.kind == jref::Obj || v.kind == jref::Str); }
} // namespace ranged
