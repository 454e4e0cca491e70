// Invocations of the shipped operations: generation, and what is known of them beforehand.
#pragma once
#include "json_ref.hpp"
#include "ranged.hpp"
#include "rsa_keys.hpp"
#include "strange_keys.hpp"

namespace calls {
using pbt::Op; using pbt::Src; using pbt::u64; using pbt::i64;
using jref::V;

inline const std::vector<std::string>& names() { static const std::vector<std::string> v = {"reverse", "json", "scrypt", "rsa_encrypt", "rsa_decrypt"}; return v; }

// The operations of examples/ read their arguments unchecked (KNOWN_FINDINGS): calls that
// these two cannot serve are outside what is generated for them.
inline bool inDomain(const std::string& op, const std::string& text) {
  if (op != "reverse" && op != "json") return true;
  V v; jref::Reader r(text, false);
  if (!r.value(v)) return true;                        // ends the process before the operation sees it
  if (v.kind != jref::Arr) return true;                // rejected before the operation sees it
  if (op == "reverse") return v.a.size() >= 1 && v.a[0].kind == jref::Str;
  if (v.a.size() < 4 || v.a[0].kind != jref::Str || v.a[1].kind != jref::Str || v.a[2].kind != jref::Int || v.a[3].kind != jref::Int) return false;
  if (v.a[2].s.size() > 8 || v.a[3].s.size() > 8) return false;
  const std::string &f = v.a[0].s, &d = v.a[1].s; long a = atol(v.a[2].s.c_str()), b = atol(v.a[3].s.c_str());
  if (f != "parseString" && f != "parseArray" && f != "arrayGet" && f != "objectGet") return true;
  if (a < 0 || b < a || (size_t)b > d.size()) return false;
  std::string cut = d.substr(a, b - a);
  if (d.find('\0') != std::string::npos || !ranged::navigable(cut)) return false;
  size_t i = 0; ranged::Node n = ranged::read(cut, i);
  if (f == "parseString") return n.kind == jref::Str;
  if (f == "parseArray") return n.kind == jref::Arr;
  if (f == "arrayGet") return n.kind == jref::Arr && v.a.size() >= 5 && v.a[4].kind == jref::Int && v.a[4].s.size() < 8 && atol(v.a[4].s.c_str()) >= 0 && (size_t)atol(v.a[4].s.c_str()) < n.kids.size();
  return n.kind == jref::Obj && v.a.size() >= 5 && v.a[4].kind == jref::Str;
}

inline std::string lit(Src& s, const std::string& b) { return jref::writeStr(&s, b, false); }

inline std::string genKey(Src& s, bool pub, bool robust) {
  const auto& pool = keys::pool();
  if (!s.fromFuzzer() && s.below(200) == 0) { const keys::Key& b = keys::bigPool()[s.p(90) ? s.below(3) : s.below(4)]; return pub ? b.pub : s.p(50) ? b.priv : b.priv8; }
  const keys::Key& k = pool[s.p(85) ? s.below(9) : s.below(pool.size())];
  std::string right = pub ? k.pub : s.p(50) ? k.priv : k.priv8;
  if (!robust || s.p(35)) return right;
  switch (s.below(9)) {
    case 0: return pub ? k.priv : k.pub;
    case 1: return k.pkcs1pub;
    case 2: return s.pick(keys::strange());
    case 3: return jref::genBytes(s, 60);
    case 4: return right.substr(0, s.below(right.size()));
    case 5: { size_t n = 1 + s.below(3); while (n--) { size_t i = s.below(right.size()); if (s.p(50)) right[i] = (char)s.below(256); else right.erase(i, 1 + s.below(4)); if (right.empty()) return "-"; } return right; }
    case 6: return jref::genBytes(s, 10) + "\n" + right + jref::genBytes(s, 10);
    default: {  // the structure behind the text is damaged
      std::string d = pub ? k.pubDer : k.privDer; size_t n = 1 + s.below(3);
      while (n-- && !d.empty()) switch (s.below(5)) {
        case 0: d[s.below(d.size())] ^= (char)(1 << s.below(8)); break;
        case 1: d[s.below(d.size())] = (char)s.below(256); break;
        case 2: d[s.below(std::min<size_t>(d.size(), 40))] = (char)s.below(256); break;
        case 3: { size_t i = s.below(d.size()), m = s.below(9); for (size_t q = i; q < i + m && q < d.size(); ++q) d[q] = s.p(50) ? 0 : (char)0xff; break; }
        default: d.resize(s.below(d.size() + 1)); break;
      }
      return keys::pem(pub ? "PUBLIC KEY" : "RSA PRIVATE KEY", d);
    }
  }
}

// a document and a call that navigates it
inline std::string genNav(Src& s) {
  jref::GenOpt g; g.budget = 12; g.wsDensity = s.p(70) ? 0 : 30; g.rawControls = false; g.maxStr = 10;
  std::string t; static const char* open[] = {"[1,\"two\",", "{\"a\":\"x\",\"b\":", "["};
  int w = (int)s.below(3); t = open[w]; jref::genValue(s, g, 0, 3, t); t += w == 1 ? "}" : "]";
  for (char& c : t) if (!c) c = 'n';
  if (!ranged::navigable(t)) t = "[\"\"]";
  size_t i = 0; ranged::Node root = ranged::read(t, i); const ranged::Node* n = &root;
  for (size_t d = s.below(4); d && !n->kids.empty(); --d) { const ranged::Node* x = &n->kids[s.below(n->kids.size())].second; if (x->kind == jref::Bool || x->kind == jref::Int) break; n = x; }
  std::string f, last;
  if (n->kind == jref::Str) f = "parseString";
  else if (n->kind == jref::Obj) { f = "objectGet"; last = "," + lit(s, !n->kids.empty() && s.p(70) ? n->kids[s.below(n->kids.size())].first : jref::genBytes(s, 3)); }
  else if (n->kids.empty() || s.p(40)) f = "parseArray";
  else { f = "arrayGet"; last = "," + std::to_string(s.below(n->kids.size())); }
  if (s.rare(5)) f = "other";
  return "[\"" + f + "\"," + lit(s, t) + "," + std::to_string(n->from) + "," + std::to_string(n->to) + last + "]";
}

// robust: with anything the operation has to reject
inline Op gen(Src& s, bool robust) {
  const std::string& op = names()[s.weighted({3, 3, 2, 3, 4})];
  std::vector<std::string> args;
  if (op == "json") { std::string t = genNav(s); if (robust && s.rare(5)) t = jref::genDoc(s, false, true); return Op("call", {}, {op, t}); }
  if (op == "reverse") args = {lit(s, jref::genBytes(s, s.rare(4) ? 3000 : 60))};
  else if (op == "scrypt") {
    std::string t; size_t n = s.p(20) ? s.below(170) : s.p(20) ? 156 + s.below(8) : s.below(161);
    for (size_t i = 0; i < n; ++i) t += "0123456789abcdefABCDEF"[s.below(22)];
    if (s.p(12)) { t.assign(s.pick(std::vector<size_t>{160, 160, 159, 158, 128, 80, 64, 2, 1}), "00fF18"[s.below(6)]); if (s.p(30)) t.back() = "01fA"[s.below(4)]; }
    if (robust && s.rare(20) && n && n <= t.size()) t[s.below(n)] = (char)s.below(256);
    args = {lit(s, t)};
  } else {
    bool pub = op == "rsa_encrypt"; std::string m; size_t n = s.p(70) ? s.below(60) : s.below(300);
    for (size_t i = 0; i < n; ++i) m += (char)(s.p(80) ? 'a' + s.below(26) : s.below(256));
    if (s.p(10)) m.assign(s.pick(std::vector<size_t>{64, 63, 65, 128, 8, 1, 32}), "\0\0\xff\x01" "a "[s.below(6)]);
    if (!pub) {
      if (s.p(60)) m.resize(s.pick(std::vector<size_t>{64, 63, 65, 96, 128, 8, 12}), 1);
      m = keys::hex(m); if (s.p(20)) for (char& c : m) c = (char)toupper(c);
      if (robust && s.rare(15) && !m.empty()) m[s.below(m.size())] = (char)s.below(256);
      if (robust && s.rare(10)) m += "a";
    }
    args = {lit(s, genKey(s, pub, robust)), lit(s, m)};
  }
  if (robust && s.rare(25)) {
    jref::GenOpt g; g.budget = 5; g.wsDensity = 0; g.rawControls = false; g.maxStr = 12;
    switch (s.below(5)) {
      case 0: args.pop_back(); break;
      case 1: { std::string v; jref::genValue(s, g, 0, 2, v); args[s.below(args.size())] = v; break; }
      case 2: { std::string v; jref::genValue(s, g, 0, 2, v); args.insert(args.begin(), v); break; }
      case 3: args.clear(); break;
      default: return Op("call", {}, {op, jref::genDoc(s, false, true)});
    }
  }
  if (s.rare(10)) args.push_back(s.pick(std::vector<std::string>{"1", "\"more\"", "true", "[]", "{}"}));
  std::string t = jref::genWs(s, 10) + "[";
  for (size_t i = 0; i < args.size(); ++i) t += (i ? "," : "") + jref::genWs(s, 10) + args[i] + jref::genWs(s, 10);
  return Op("call", {}, {op, t + "]"});
}

struct Known { bool rejected = false, decided = true; u64 gas = 1500; bool perResult = false; };
// what the published rates say about a call in the domain
inline Known gasOf(const std::string& op, const V& v) {
  Known k; k.rejected = true;
  if (v.kind != jref::Arr) return k;
  if (op == "reverse") { k.rejected = false; k.gas = 10 * v.a[0].s.size(); return k; }
  if (op == "json") {
    const std::string& f = v.a[0].s; if (f != "parseString" && f != "parseArray" && f != "arrayGet" && f != "objectGet") return k;
    k.rejected = false; k.perResult = true; return k;
  }
  size_t need = op == "scrypt" ? 1 : 2;
  if (v.a.size() < need) return k;
  for (size_t i = 0; i < need; ++i) if (v.a[i].kind != jref::Str) return k;
  auto isHex = [](const std::string& s) { return s.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos; };
  if (op == "scrypt") { if (v.a[0].s.size() > 160 || !isHex(v.a[0].s)) return k; k.rejected = false; k.gas = (v.a[0].s.size() + 1) / 2 * 10; return k; }
  const keys::Key* key = 0;
  for (auto& x : keys::pool()) if (op == "rsa_encrypt" ? v.a[0].s == x.pub : v.a[0].s == x.priv || v.a[0].s == x.priv8) key = &x;
  if (!key) for (auto& x : keys::bigPool()) if (op == "rsa_encrypt" ? v.a[0].s == x.pub : v.a[0].s == x.priv || v.a[0].s == x.priv8) key = &x;
  if (!key) { k.decided = false; return k; }
  if (op == "rsa_decrypt" && (v.a[1].s.size() % 2 || !isHex(v.a[1].s))) return k;
  k.rejected = false; k.gas = 10 * key->size(); return k;
}
} // namespace calls
