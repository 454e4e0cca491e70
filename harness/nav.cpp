// C17: navigation of JSON documents by ranges.
#include <algorithm>
#include "json_eni.hpp"
#include "ranged.hpp"

using namespace pbt;
using ranged::Node;
extern "C" { char* json_run(char*); uint64_t* json_gas(char*); }
namespace {
std::string g_Data; u64 g_Style;
std::string call(const std::string& op, size_t a, size_t b, const std::string& last) {
  Src ws(1, g_Style, 4);
  std::string text = "[\"" + op + "\"," + jref::writeStr(g_Style & 1 ? &ws : 0, g_Data, false) + "," + std::to_string(a) + "," + std::to_string(b) + (last.empty() ? "" : "," + last) + "]";
  std::vector<char> buf(text.begin(), text.end()); buf.push_back(0);
  char* r = json_run(buf.data());
  PBT_CHECK(r, op << " of " << a << ".." << b << " gives no result in " << jcmp::show(g_Data));
  std::string t(r); free(r);
  jref::V v;
  PBT_CHECK(jref::readStrict(t, v) && v.kind == jref::Arr && v.a.size() == 1 && v.a[0].kind == jref::Str, op << ": the result is not an array of one string: " << jcmp::show(t));
  return v.a[0].s;
}
void check(const Case& c, Ctx& ctx) {
  std::string data; Node root; const Node* cur = 0; size_t from = 0, to = 0, depth = 0;
  auto at = [&] { return " at " + std::to_string(from) + ".." + std::to_string(to) + " of " + jcmp::show(data); };
  for (const Op& o : c) {
    if (o.k == "doc") {
      cur = 0; std::string t = o.str(0);
      if (!ranged::navigable(t)) continue;
      u64 pre = (u64)o.num(1) % 90000;              // the document may stand anywhere in the data
      data = std::string(pre, ' ') + t + o.str(1); g_Data = data; g_Style = (u64)o.num(0);
      if (g_Data.find('\0') != std::string::npos) continue;
      size_t i = pre; root = ranged::read(data, i); cur = &root; depth = 0;
      from = o.num(2) & 1 ? pre : root.from; to = o.num(2) & 2 ? pre + t.size() : root.to;   // with or without the white space around it
      if (pre > 65535) ctx.label("offsets above 65535");
      continue;
    }
    if (!cur) continue;
    const Node* next = 0;
    if (cur->kind == jref::Arr) {
      std::string want; for (auto& k : cur->kids) want += ranged::code(k.second);
      std::string got = call("parseArray", from, to, "");
      PBT_CHECK(got == want, "listing gives " << got << " instead of " << want << at());
      if (!cur->kids.empty()) {
        size_t i = (size_t)((u64)o.num(0) % cur->kids.size()); next = &cur->kids[i].second;
        got = call("arrayGet", from, to, std::to_string(i));
        PBT_CHECK(got == ranged::code(*next), "element " << i << " is " << got << " instead of " << ranged::code(*next) << at());
      }
      ctx.label("array");
    } else if (cur->kind == jref::Obj) {
      std::string key = o.str(0);
      if (!(o.num(1) & 3)) {                        // a key that is probably missing
      } else if (!cur->kids.empty()) key = cur->kids[(u64)o.num(0) % cur->kids.size()].first;
      next = ranged::member(*cur, key);
      Src ws(1, (u64)o.num(0), 4);
      std::string got = call("objectGet", from, to, jref::writeStr(&ws, key, false));
      std::string want = next ? ranged::code(*next) : ranged::code(0, 0);
      PBT_CHECK(got == want, "member " << jcmp::show(key) << " is " << got << " instead of " << want << at());
      ctx.label(next ? "member" : "missing member");
      size_t n = 0; for (auto& k : cur->kids) n += k.first == key;
      if (n > 1) ctx.label("duplicate key");
    } else if (cur->kind == jref::Str) {
      std::string got = call("parseString", from, to, "");
      PBT_CHECK(got == cur->s, "the string is " << jcmp::show(got) << " instead of " << jcmp::show(cur->s) << at());
      ctx.label("string"); if (depth) ctx.nontrivial = true;
    }
    if (next) { cur = next; from = cur->from; to = cur->to; ++depth; if (depth > 1) { ctx.nontrivial = true; ctx.label("navigated further"); } }
    else if (cur->kind != jref::Arr && cur->kind != jref::Obj) { cur = &root; from = root.from; to = root.to; depth = 0; }
  }
}
Case gen(Src& s) {
  Case c; Op d("doc");
  jref::GenOpt g; g.budget = s.size(); g.wsDensity = (int)s.pick(std::vector<int>{0, 10, 50}); g.rawControls = s.rare(20); g.maxStr = s.rare(3) ? 2000 : 20;
  std::string t = jref::genWs(s, g.wsDensity);
  if (!s.fromFuzzer() && s.below(4000) == 0) {       // beyond 16 bits
    size_t m = 65530 + s.below(6000); bool arr = s.p(60);
    t += arr ? "[" : "{"; for (size_t i = 0; i < m; ++i) { if (i) t += ","; if (arr) t += i % 9 ? "1" : "[7]"; else t += "\"k" + std::to_string(i) + "\":[" + std::to_string(i % 10) + "]"; } t += arr ? "]" : "}";
    d.s = {t, ""}; d.n = {0, 0, 0}; c.push_back(d);
    c.push_back(Op("go", {(i64)(m - 1 - s.below(600)), 1}, {"k"})); c.push_back(Op("go", {0, 1}, {"a"})); return c;
  }
  int md = (int)s.pick(std::vector<int>{1, 2, 3, 5});
  switch (s.weighted({5, 5, 1})) {
    case 0: { t += "["; size_t n = s.len(12); for (size_t i = 0; i < n; ++i) { if (i) t += ","; jref::genValue(s, g, 0, md, t); t += jref::genWs(s, g.wsDensity); } t += "]"; break; }
    case 1: {
      t += "{"; size_t n = s.len(12); bool few = s.p(40);
      for (size_t i = 0; i < n; ++i) {
        if (i) t += ","; t += jref::genWs(s, g.wsDensity);
        t += jref::writeStr(&s, few ? std::string(1, (char)('a' + s.below(3))) : jref::genBytes(s, 8), g.rawControls) + jref::genWs(s, g.wsDensity) + ":";
        jref::genValue(s, g, 0, md, t); t += jref::genWs(s, g.wsDensity);
      }
      t += "}"; break;
    }
    default: t += jref::writeStr(&s, jref::genBytes(s, 40), g.rawControls);
  }
  t += jref::genWs(s, g.wsDensity);
  for (char& ch : t) if (!ch) ch = 'n';
  d.s = {t, s.rare(30) ? s.pick(std::vector<std::string>{" ", ",1", "]", "\"", "}{", " [2]"}) : ""};
  d.n = {(i64)s.below(1 << 16), s.p(60) ? 0 : s.p(90) ? (i64)s.below(40) : (i64)s.below(90000), (i64)s.below(4)};
  c.push_back(d);
  size_t n = 1 + s.below(8);
  for (size_t i = 0; i < n; ++i) c.push_back(Op("go", {(i64)s.below(1000), (i64)s.below(256)}, {s.p(50) ? std::string(1, (char)('a' + s.below(4))) : jref::genBytes(s, 5)}));
  return c;
}
const Property P = {"C17", "generated documents anywhere in the data, navigated from the root by listings, indices, present, duplicate and missing keys, and string decoding, every returned range against an independent reader that remembers positions; "
  "non-trivial: a selection inside a selected value, or a selected string decoded", gen, check, [] { std::cerr.rdbuf(0); }};
} // namespace
const Property& pbt::property() { return P; }
