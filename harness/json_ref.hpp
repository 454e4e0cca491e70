// An independent reader and writer of the JSON subset the project documents:
// objects, arrays, strings, booleans, integers.  Written from the JSON grammar,
// not from the project's parser.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace jref {
using pbt::Src;

enum Kind { Bool, Int, Str, Arr, Obj };
struct V {
  Kind kind = Bool;
  bool b = false;
  std::string s;            // Int: canonical decimal, Str: bytes
  bool exact = true;        // false: the exact value is outside the documented domain
  std::vector<V> a;
  std::map<std::string, V> o;
  size_t depth() const {
    size_t d = 0;
    for (auto& x : a) d = std::max(d, x.depth());
    for (auto& x : o) d = std::max(d, x.second.depth());
    return d + 1;
  }
  size_t nodes() const {
    size_t d = 1;
    for (auto& x : a) d += x.nodes();
    for (auto& x : o) d += x.second.nodes();
    return d;
  }
};

// 2^256 - 1
inline const std::string& maxMagnitude() {
  static const std::string m = "115792089237316195423570985008687907853269984665640564039457584007913129639935";
  return m;
}

class Reader {
public:
  enum { MaxNesting = 4096 };   // the documented limit of the project's parser
  // strict: no raw control characters in strings
  Reader(const std::string& t, bool strict) : m_T(t), m_I(0), m_Strict(strict), m_Depth(0), dup(false), escapes(0), wideEscape(false) {}
  bool value(V& v) {
    ws();
    if (m_I >= m_T.size()) return false;
    char c = m_T[m_I];
    if (c == '{' || c == '[') {
      if (++m_Depth > MaxNesting) return false;
      bool ok = c == '{' ? object(v) : array(v);
      --m_Depth;
      return ok;
    }
    if (c == '"') { v.kind = Str; return string(v.s, v.exact); }
    if (c == 't') { v.kind = Bool; v.b = true; return word("true"); }
    if (c == 'f') { v.kind = Bool; v.b = false; return word("false"); }
    return integer(v);
  }
  void ws() { while (m_I < m_T.size() && (m_T[m_I] == ' ' || m_T[m_I] == '\t' || m_T[m_I] == '\n' || m_T[m_I] == '\r')) ++m_I; }
  size_t pos() const { return m_I; }
  bool atEnd() const { return m_I == m_T.size(); }
private:
  bool word(const char* w) {
    size_t n = strlen(w);
    if (m_T.compare(m_I, n, w) != 0) return false;
    m_I += n; return true;
  }
  bool integer(V& v) {
    size_t i = m_I; bool neg = false;
    if (i < m_T.size() && m_T[i] == '-') { neg = true; ++i; }
    if (i >= m_T.size() || m_T[i] < '0' || m_T[i] > '9') return false;
    size_t j = i;
    if (m_T[j] == '0') ++j; else while (j < m_T.size() && m_T[j] >= '0' && m_T[j] <= '9') ++j;
    std::string d = m_T.substr(i, j - i);
    v.kind = Int;
    v.s = (neg && d != "0") ? "-" + d : d;
    const std::string& m = maxMagnitude();
    v.exact = d.size() < m.size() || (d.size() == m.size() && d <= m);
    m_I = j; return true;
  }
  static int hex(char c) {
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
  }
  bool string(std::string& o, bool& exact) {
    o.clear(); ++m_I;
    while (true) {
      if (m_I >= m_T.size()) return false;
      char c = m_T[m_I++];
      if (c == '"') return true;
      if (c != '\\') { if (m_Strict && (unsigned char)c < 0x20) return false; o += c; continue; }
      if (m_I >= m_T.size()) return false;
      ++escapes;
      c = m_T[m_I++];
      switch (c) {
        case '"': case '\\': case '/': o += c; break;
        case 'b': o += '\b'; break;
        case 'f': o += '\f'; break;
        case 'n': o += '\n'; break;
        case 'r': o += '\r'; break;
        case 't': o += '\t'; break;
        case 'u': {
          unsigned u = 0;
          for (int k = 0; k < 4; ++k) {
            int h = m_I < m_T.size() ? hex(m_T[m_I]) : -1;
            if (h < 0) return false;
            u = u * 16 + h; ++m_I;
          }
          if (u >= 0x80) { exact = false; wideEscape = true; }
          o += (char)u; break;
        }
        default: return false;
      }
    }
  }
  bool array(V& v) {
    v.kind = Arr; ++m_I; ws();
    if (m_I < m_T.size() && m_T[m_I] == ']') { ++m_I; return true; }
    while (true) {
      V e; if (!value(e)) return false;
      v.a.push_back(std::move(e)); ws();
      if (m_I >= m_T.size()) return false;
      if (m_T[m_I] == ',') { ++m_I; continue; }
      if (m_T[m_I] == ']') { ++m_I; return true; }
      return false;
    }
  }
  bool object(V& v) {
    v.kind = Obj; ++m_I; ws();
    if (m_I < m_T.size() && m_T[m_I] == '}') { ++m_I; return true; }
    while (true) {
      ws();
      if (m_I >= m_T.size() || m_T[m_I] != '"') return false;
      std::string k; bool ex = true;
      if (!string(k, ex)) return false;
      ws();
      if (m_I >= m_T.size() || m_T[m_I] != ':') return false;
      ++m_I;
      V e; if (!value(e)) return false;
      if (v.o.count(k)) dup = true;
      v.o[k] = std::move(e);      // the last one counts
      if (!ex) v.exact = false;
      ws();
      if (m_I >= m_T.size()) return false;
      if (m_T[m_I] == ',') { ++m_I; continue; }
      if (m_T[m_I] == '}') { ++m_I; return true; }
      return false;
    }
  }
  const std::string& m_T; size_t m_I; bool m_Strict; unsigned m_Depth;
public:
  bool dup; unsigned escapes; bool wideEscape;
};

// A prefix of the text is a document.
inline bool readPrefix(const std::string& t, V& v) { Reader r(t, false); return r.value(v); }
// The whole text is one strict JSON document.
inline bool readStrict(const std::string& t, V& v) {
  Reader r(t, true);
  if (!r.value(v)) return false;
  r.ws(); return r.atEnd();
}

// ------------------------------------------------------------- generation
inline std::string genInt(Src& s) {
  static const std::vector<std::string> edge = {
    "0", "1", "9", "10", "127", "128", "255", "256", "32767", "65535", "65536", "99999", "100000",
    "2147483647", "2147483648", "4294967295", "4294967296", "9007199254740993",
    "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
    "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
    "1461501637330902918203684832716283019655932542975", "1461501637330902918203684832716283019655932542976",
    "57896044618658097711785492504343953926634992332820282019728792003956564819967",
    "57896044618658097711785492504343953926634992332820282019728792003956564819968",
    "115792089237316195423570985008687907853269984665640564039457584007913129639935",
    "115792089237316195423570985008687907853269984665640564039457584007913129639934",
    "100000000000000000000000000000000000000000000000000000000000000000000000000000",
    "99999999999999999999999999999999999999999999999999999999999999999999999999999" };
  std::string d;
  switch (s.weighted({3, 3, 2})) {
    case 0: d = s.pick(edge); break;
    case 1: d = std::to_string(s.below(1000)); break;
    default: {
      size_t n = 1 + s.below(77);
      d += (char)('1' + s.below(9));
      while (d.size() < n) d += (char)('0' + s.below(10));
    }
  }
  if (s.rare(30)) d = "-" + d;
  return d;
}

inline std::string genBytes(Src& s, size_t max) {
  size_t n = s.len(max);
  std::string o;
  int style = (int)s.below(6);
  for (size_t i = 0; i < n; ++i) {
    switch (style) {
      case 0: case 1: o += (char)('a' + s.below(26)); break;
      case 2: o += (char)(32 + s.below(95)); break;
      case 3: o += (char)s.below(128); break;
      case 4: o += "\"\\/\b\f\n\r\t u{}[],:0-"[s.below(19)]; break;
      default: o += (char)s.below(256); break;
    }
  }
  return o;
}

// write a string literal: each character raw or escaped in one of its ways
inline std::string writeStr(Src* s, const std::string& b, bool rawControls) {
  std::string o = "\"";
  for (unsigned char c : b) {
    int how = s ? (int)s->below(8) : 0;
    char u[8];
    bool must = c == '"' || c == '\\' || (c < 0x20 && !rawControls);
    if (must || (how == 7 && c < 0x80)) {
      const char* sh = strchr("\"\"\\\\//\bb\ff\nn\rr\tt", c);
      std::string shortForm;
      switch (c) {
        case '"': shortForm = "\\\""; break; case '\\': shortForm = "\\\\"; break; case '/': shortForm = "\\/"; break;
        case '\b': shortForm = "\\b"; break; case '\f': shortForm = "\\f"; break; case '\n': shortForm = "\\n"; break;
        case '\r': shortForm = "\\r"; break; case '\t': shortForm = "\\t"; break; default: break;
      }
      (void)sh;
      if (!shortForm.empty() && (how & 1) == 0) o += shortForm;
      else if (!shortForm.empty() && how != 7) o += shortForm;
      else { snprintf(u, sizeof u, (how & 2) ? "\\u%04X" : "\\u%04x", c); o += u; }
    } else o += (char)c;
  }
  return o + "\"";
}

inline std::string genWs(Src& s, int density) {
  std::string o;
  if ((int)s.below(100) >= density) return o;
  size_t n = 1 + s.below(3);
  while (n--) o += " \t\n\r"[s.below(4)];
  return o;
}

struct GenOpt { int budget; int wsDensity; bool rawControls; size_t maxStr; };

inline void genValue(Src& s, GenOpt& g, int depth, int maxDepth, std::string& o) {
  o += genWs(s, g.wsDensity);
  bool leaf = depth >= maxDepth || g.budget <= 0;
  --g.budget;
  switch (leaf ? s.weighted({2, 2, 1}) : s.weighted({2, 2, 1, 3, 3})) {
    case 0: o += genInt(s); break;
    case 1: o += writeStr(&s, genBytes(s, g.maxStr), g.rawControls); break;
    case 2: o += s.p(50) ? "true" : "false"; break;
    case 3: {
      o += '[';
      size_t n = s.len(g.budget > 0 ? g.budget : 0);
      for (size_t i = 0; i < n; ++i) {
        if (i) o += ',';
        genValue(s, g, depth + 1, maxDepth, o);
        o += genWs(s, g.wsDensity);
      }
      if (!n) o += genWs(s, g.wsDensity);
      o += ']'; break;
    }
    default: {
      o += '{';
      size_t n = s.len(g.budget > 0 ? g.budget : 0);
      bool small = s.rare(30);   // few distinct keys: duplicates
      for (size_t i = 0; i < n; ++i) {
        if (i) o += ',';
        o += genWs(s, g.wsDensity);
        std::string k = small ? std::string(1, (char)('a' + s.below(3))) : genBytes(s, g.maxStr / 2);
        o += writeStr(&s, k, g.rawControls);
        o += genWs(s, g.wsDensity) + ":";
        genValue(s, g, depth + 1, maxDepth, o);
        o += genWs(s, g.wsDensity);
      }
      if (!n) o += genWs(s, g.wsDensity);
      o += '}'; break;
    }
  }
}

// A whole document.
inline std::string genDoc(Src& s, bool rootArray, bool rawControls) {
  GenOpt g; g.budget = s.size() ; g.wsDensity = (int)s.pick(std::vector<int>{0, 10, 50});
  g.rawControls = rawControls; g.maxStr = s.rare(2) ? 3000 : 60;
  int maxDepth = (int)s.pick(std::vector<int>{1, 2, 3, 5, 8, 12});
  std::string o;
  if (!s.fromFuzzer() && s.rare(1) && s.rare(5)) { // very long
    std::string unit, w = genWs(s, g.wsDensity);
    size_t n = s.p(50) ? 65530 + s.below(12) : s.below(150000);
    switch (s.below(3)) {
      case 0: unit = genBytes(s, 9) + "x"; while (unit.size() < n) unit += unit; unit.resize(n);
              return w + "[" + writeStr(0, unit, rawControls) + "]";
      case 1: o = w + "["; if (s.p(60)) n /= 4; for (size_t i = 0; i < n; ++i) { if (i) o += ','; o += n > 40000 ? std::string(1, (char)('0' + i % 10)) : std::to_string(i % 1000); } return o + "]";
      default: o = w + "[{"; n = s.p(70) ? n / 16 : n / 2 + 1000; for (size_t i = 0; i < n; ++i) { if (i) o += ','; o += "\"k" + std::to_string(i) + "\":" + std::to_string(i % 10); } return o + "}]";
    }
  }
  if (s.rare(3)) { // deep nesting
    size_t d = 1 + s.below(s.rare(8) ? 4095 : 120); std::string tail;
    o = genWs(s, g.wsDensity);
    for (size_t i = 0; i < d; ++i) {
      if (rootArray && i == 0) { o += '['; tail += ']'; continue; }
      if (s.p(60)) { o += '['; tail += ']'; }
      else { o += "{" + writeStr(&s, genBytes(s, 4), rawControls) + ":"; tail += '}'; }
    }
    std::reverse(tail.begin(), tail.end());
    GenOpt h = g; h.budget = 3;
    genValue(s, h, 0, 1, o);
    return o + tail;
  }
  if (rootArray) {
    o = genWs(s, g.wsDensity) + "[";
    size_t n = s.len(g.budget);
    for (size_t i = 0; i < n; ++i) { if (i) o += ','; genValue(s, g, 0, maxDepth, o); o += genWs(s, g.wsDensity); }
    return o + "]" + genWs(s, g.wsDensity);
  }
  genValue(s, g, 0, maxDepth, o);
  return o + genWs(s, g.wsDensity);
}

} // namespace jref
