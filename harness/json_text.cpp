// C01 documents are read exactly, C02 malformed text is rejected,
// C03 printed values read back.
#include "json_eni.hpp"
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
using jref::V;

namespace {

// an operation that keeps the arguments it was given
class Probe : public eni::EniBase {
public:
  Probe(const std::string& a, json::Value* sink) : eni::EniBase(a), m_Sink(sink), m_Parsed(0) {}
  ~Probe() {}
private:
  bool parse(const json::Array& a) override { ++m_Parsed; if (m_Sink) *m_Sink = json::Value(a); return true; }
  eni::Gas gas() const override { return 7; }
  bool run(json::Array&) override { return true; }
  json::Value* m_Sink; int m_Parsed;
};

std::string mutate(Src& s, std::string t) {
  size_t n = 1 + s.below(3);
  static const std::vector<std::string> tok = {"[", "]", "{", "}", ",", ":", "\"", "\\", "-", "0", "1", "t", "true", "f", "false",
    "null", "\\u", "\\u00", "\\x", ".5", "e9", "+", "/", " ", std::string(1, '\0'), "'", "NaN", "TRUE", "tru", "fals", "--1", "[,]", "\xff", "\\u12G4"};
  while (n--) {
    size_t i = t.empty() ? 0 : s.below(t.size() + 1);
    switch (s.below(6)) {
      case 0: t = t.substr(0, i); break;                                   // truncate
      case 1: if (i < t.size()) t.erase(i, 1 + s.below(3)); break;         // delete
      case 2: case 3: t.insert(i, s.pick(tok)); break;                     // insert a token
      case 4: if (i < t.size()) t[i] = (char)s.below(256); break;          // replace a byte
      default: if (i < t.size()) t.replace(i, 1, s.pick(tok)); break;
    }
  }
  return t;
}

// one small slip of the grammar at a place where it matters
std::string slip(Src& s, std::string t) {
  auto place = [&](const std::string& of) -> size_t {       // a position of one of these characters
    std::vector<size_t> at;
    for (size_t i = 0; i < t.size(); ++i) if (of.find(t[i]) != std::string::npos) at.push_back(i);
    return at.empty() ? std::string::npos : at[s.below(at.size())];
  };
  static const std::string nearHex = "/:;@G`g`HhZz xX-+.\"\\";
  size_t i;
  switch (s.below(9)) {
    case 0: {                                                // a \u escape with a foreign or missing digit
      std::string u = "\\u";
      size_t bad = s.below(4);
      for (size_t k = 0; k < 4; ++k) u += k == bad ? (s.p(70) ? s.pick(std::vector<char>(nearHex.begin(), nearHex.end())) : (char)s.below(256)) : k < 2 ? '0' : "0123456789abcdefABCDEF"[s.below(k == 2 ? 8 : 22)];
      if (s.rare(20)) u.erase(2 + s.below(4), 1 + s.below(2));
      i = place("\"");
      if (i == std::string::npos) t = "[\"" + u + "\"]"; else t.insert(i + 1, u);
      break;
    }
    case 1:                                                  // an escape that is none
      i = place("\"");
      if (i != std::string::npos) t.insert(i + 1, std::string("\\") + (s.p(60) ? "acdeghijklmopqsvwxyzBFNRTU0127'?"[s.below(31)] : (char)s.below(256)));
      break;
    case 2: i = place("0123456789"); if (i != std::string::npos) t.insert(i + (s.p(50) ? 1 : 0), s.pick(std::vector<std::string>{"0", "00", "+", "-", ".", ".0", "e1", "E", "x", "_", "n", "-0", " ", "\f", "L", "u"})); break;
    case 3: i = place(",:[]{}"); if (i != std::string::npos) t.replace(i, 1, s.pick(std::vector<std::string>{";", "=", ",", ":", "[", "]", "{", "}", "(", ")", ",,", "::", "[,", ",]", ",}", "{,", "=>", "/**/,", "//\n,"})); break;
    case 4: i = place("\""); if (i != std::string::npos) t.replace(i, 1, s.pick(std::vector<std::string>{"'", "`", "", "\"\"", "\\\"", "\xe2\x80\x9c", "\\", "\\\\"})); break;
    case 5: i = place("truefals"); if (i != std::string::npos) t[i] = s.p(40) ? (char)(t[i] ^ 0x20) : s.p(50) ? (char)(t[i] + 1) : (char)s.below(256); break;
    case 6: i = place(",:[]{} \t\n\r"); if (i != std::string::npos) t.insert(i + (s.p(50) ? 1 : 0), s.pick(std::vector<std::string>{"\v", "\f", "\xa0", "\x85", std::string(1, '\0'), "\x1c", "\x1f", "\x7f", "\xef\xbb\xbf", "\b", "\\n", "\xe2\x80\xa8", "#", "!"})); break;
    case 7: i = place("]}\""); if (i != std::string::npos) t.erase(i); break;      // an end that is missing
    default: t.insert(s.below(3) ? 0 : t.size(), s.pick(std::vector<std::string>{"\xef\xbb\xbf", "\v", "\f", "+", "-", std::string(1, '\0'), ",", "]", "}", "'", "(", "//\n", "=", "--"})); break;
  }
  return t;
}

std::string tokenSoup(Src& s) {
  static const std::vector<std::string> tok = {"[", "]", "{", "}", ",", ":", "\"", "\"a\"", "\"\"", "1", "-", "0", "-0", "12", "true", "false", " ",
    "\n", "t", "f", "\\", "\"\\u0041\"", "\"\\", "\"k\":", "null", "1.5", "e"};
  std::string o; size_t n = s.len(40);
  while (n--) o += s.pick(tok);
  return o;
}

// "": agrees with the reference
void checkText(const std::string& t, Ctx& ctx, bool viaOp) {
  V ref;
  jref::Reader rd(t, false);
  bool ok = rd.value(ref);
  json::Parser p(t);
  if (!ok) {
    PBT_CHECK(!p, "malformed text is accepted: " << jcmp::show(t));
    ctx.label("rejected");
    if (viaOp) {  // the invocation ends the process with a failing status
      fflush(0);
      pid_t pid = fork();
      if (pid == 0) {
        fclose(stderr);
        try { Probe pr(t, 0); char* r = pr.start(); pr.getGas(); if (r) _exit(0); }
        catch (const std::exception&) { _exit(1); }
        catch (...) { _exit(76); }
        _exit(0);
      }
      int st; waitpid(pid, &st, 0);
      PBT_CHECK(WIFEXITED(st), "invocation with malformed text is killed by signal " << WTERMSIG(st) << ": " << jcmp::show(t));
      PBT_CHECK(WEXITSTATUS(st) != 77, "invocation with malformed text has a memory error: " << jcmp::show(t));
      PBT_CHECK(WEXITSTATUS(st) != 76, "invocation with malformed text raises an error that is no std::exception, and nobody catches: " << jcmp::show(t));
      PBT_CHECK(WEXITSTATUS(st) != 0, "invocation with malformed text goes on: " << jcmp::show(t));
      ctx.label("rejected-by-operation");
    }
    return;
  }
  PBT_CHECK((bool)p, "document is rejected: " << jcmp::show(t));
  std::string d = jcmp::diff(ref, p.getRoot());
  PBT_CHECK(d.empty(), "document is misread: " << d << " in " << jcmp::show(t));
  ctx.label("accepted");
  if (ref.kind == jref::Arr) { // the same through an operation
    json::Value got;
    Probe pr(t, &got);
    PBT_CHECK(pr.getGas() == 7, "operation did not receive its arguments");
    d = jcmp::diff(ref, got);
    PBT_CHECK(d.empty(), "operation receives other arguments: " << d << " in " << jcmp::show(t));
    ctx.label("through-operation");
  }
  if (rd.dup) ctx.label("duplicate-key");
  if (rd.escapes) ctx.label("escapes");
  if (ref.depth() > 10) ctx.label("depth>10");
  if (ref.depth() > 1000) ctx.label("depth>1000");
  if (t.size() > 100) ctx.label("longer-than-100");
}

} // namespace

#if defined(PROP_C01)
static Case gen(Src& s) {
  Op o("text");
  std::string t = jref::genDoc(s, s.p(60), s.rare(15));
  if (s.rare(5)) t += std::string(1, "x]}1\""[s.below(5)]);   // ignored after the first document
  o.s.push_back(t);
  return Case{o};
}
static void check(const Case& c, Ctx& ctx) {
  for (const Op& o : c) {
    V v; jref::Reader r(o.str(0), false);
    if (!r.value(v) || r.wideEscape) continue;                // outside the domain
    checkText(o.str(0), ctx, false);
    if (v.nodes() >= 3 || v.kind == jref::Str || v.kind == jref::Int) ctx.nontrivial = true;
  }
}
static const Property P = {"C01",
  "generated documents of the supported subset (nesting up to 4096, strings with every escape, integers up to 77 digits, duplicate keys, arbitrary white space), "
  "read directly and through an operation, compared node by node with an independent reader; non-trivial: a string, an integer, or at least 3 nodes", gen, check, [] { std::cerr.rdbuf(0); }};

#elif defined(PROP_C02)
static Case gen(Src& s) {
  Op o("text");
  std::string t;
  if (s.rare(1) && s.rare(30)) {   // around and far beyond the nesting limit
    size_t d = s.p(50) ? 4090 + s.below(12) : s.below(300000);
    if (s.fromFuzzer()) d = 4090 + s.below(12);
    bool obj = s.p(40), cut = s.p(30);
    for (size_t i = 0; i < d; ++i) t += i && obj ? "{\"\":" : "[";
    if (obj) t += '1';
    if (!cut) { for (size_t i = 1; i < d; ++i) t += obj ? '}' : ']'; t += ']'; }
    o.s.push_back(t); o.n.push_back(1);
    return Case{o};
  }
  switch (s.weighted({4, 3, 1, 1, 4})) {
    case 4: t = slip(s, jref::genDoc(s, s.p(60), true)); if (s.rare(10)) t = slip(s, t); break;
    case 0: t = mutate(s, jref::genDoc(s, s.p(60), true)); break;
    case 1: t = tokenSoup(s); break;
    case 2: { size_t n = s.len(80); while (n--) t += (char)s.below(256); break; }
    default: t = mutate(s, tokenSoup(s)); break;
  }
  o.s.push_back(t);
  o.n.push_back(s.fromFuzzer() ? 0 : s.rare(3));   // through an operation, which ends the process
  return Case{o};
}
static void check(const Case& c, Ctx& ctx) {
  for (const Op& o : c) {
    V v; jref::Reader r(o.str(0), false);
    bool ok = r.value(v);
    checkText(o.str(0), ctx, o.num(0) & 1);
    if (!ok && o.str(0).size() >= 2) ctx.nontrivial = true;
  }
}
static const Property P = {"C02",
  "mutated documents, token sequences and raw bytes given to the parser and (in a child process) to an operation; accepted exactly when an independent reader finds "
  "a document at the start; non-trivial: a malformed text of at least 2 bytes", gen, check, [] { std::cerr.rdbuf(0); }};

#elif defined(PROP_C03)
static Case gen(Src& s) {
  Op o("text");
  o.s.push_back(jref::genDoc(s, s.p(40), true));
  o.n.push_back((int)s.below(3));
  return Case{o};
}
static void check(const Case& c, Ctx& ctx) {
  for (const Op& o : c) {
    V v; jref::Reader r(o.str(0), false);
    if (!r.value(v) || r.wideEscape) continue;
    std::function<bool(const V&)> exact = [&](const V& x) {
      if (!x.exact) return false;
      for (auto& e : x.a) if (!exact(e)) return false;
      for (auto& e : x.o) if (!exact(e.second)) return false;
      return true;
    };
    if (!exact(v)) continue;
    json::Value val = jcmp::build(v);
    if (o.num(0) == 1) { json::Value t(val); val = t; }               // a copy prints the same
    if (o.num(0) == 2 && v.kind == jref::Arr) {                       // a delegated array prints the same
      json::Array* a = new json::Array(val.toArray()); json::Value t; t.delegate(*a); val = t;
    }
    std::string d = jcmp::diff(v, val);
    PBT_CHECK(d.empty(), "value is built wrongly: " << d);
    std::string t1 = jcmp::print(val);
    V back;
    PBT_CHECK(jref::readStrict(t1, back), "printed text is not JSON: " << jcmp::show(t1));
    PBT_CHECK(jcmp::same(v, back), "printed text denotes another value: " << jcmp::show(t1) << " for " << jcmp::show(o.str(0)));
    json::Parser p(t1);
    PBT_CHECK((bool)p, "printed text is rejected: " << jcmp::show(t1));
    d = jcmp::diff(v, p.getRoot());
    PBT_CHECK(d.empty(), "printed text is read back differently: " << d << " from " << jcmp::show(t1));
    std::string t2 = jcmp::print(p.getRoot());
    json::Parser q(t2);
    PBT_CHECK((bool)q && jcmp::diff(v, q.getRoot()).empty(), "second round trip differs: " << jcmp::show(t2));
    PBT_CHECK(jcmp::print(val) == t1, "printing changes the value");
    ctx.nontrivial = v.nodes() >= 3 || (v.kind == jref::Str && !v.s.empty()) || (v.kind == jref::Int && v.s.size() > 9);
    if (v.kind == jref::Obj || t1.find('{') != std::string::npos) ctx.label("has-object");
    if (t1.find("\\u") != std::string::npos) ctx.label("control-characters");
    if (v.depth() > 10) ctx.label("depth>10");
  }
}
static const Property P = {"C03",
  "generated value trees built through constructors, copies and delegation, printed, read by an independent strict JSON reader and by the project's parser, and printed again; "
  "non-trivial: at least 3 nodes, a non-empty string or an integer of 10 digits or more", gen, check, [] { std::cerr.rdbuf(0); }};
#endif

const Property& pbt::property() { return P; }
