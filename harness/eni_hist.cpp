// C09: operation instances (and the C entry points) with logged hooks, driven
// through histories of gas queries and starts.
#include <algorithm>
#include <functional>
#include <stdexcept>
#include "json_eni.hpp"

using namespace pbt;
namespace {
using jref::V;
enum { Slots = 3 };

struct Script {                        // what an operation does
  bool accept = true; u64 gas = 7; i64 okBits = -1, throwBits = 0; int style = 0, throws = 0;   // throws: 1 parsing, 2 every other quote
  std::vector<V> results;              // the arrays of results of its runs, in turn
  V args; bool argsValid = false;      // what it must be given
};
struct Log {
  int made = 0, gone = 0, parse = 0, gas = 0, run = 0;
  std::string bad;
  void say(const std::string& s) { if (bad.empty()) bad = s; }
};
Script* g_Script; Log* g_Log;          // of the next instance

struct Raised : std::runtime_error { Raised(const std::string& w) : std::runtime_error(w) {} };
// an operation that an operation may use while it runs
class Echo : public eni::EniBase {
public:
  explicit Echo(const std::string& t) : eni::EniBase(t) {}
private:
  bool parse(const json::Array& a) override { m_A = a; return true; }
  eni::Gas gas() const override { return m_A.size(); }
  bool run(json::Array& r) override { r = m_A; return true; }
  json::Array m_A;
};

class Logged : public eni::EniBase {
public:
  explicit Logged(const std::string& t) : eni::EniBase(t), m_S(*g_Script), m_L(*g_Log) { ++m_L.made; }
  ~Logged() { ++m_L.gone; }
private:
  bool parse(const json::Array& a) override {
    ++m_L.parse;
    if (m_L.parse > 1) m_L.say("the arguments are parsed again");
    if (m_L.gas || m_L.run) m_L.say("the arguments are parsed after a hook ran");
    if (!m_S.argsValid) { m_L.say("arguments that are not an array are offered for parsing"); return m_S.accept; }
    if (a.size() != m_S.args.a.size()) { m_L.say("the operation is given " + std::to_string(a.size()) + " arguments of " + std::to_string(m_S.args.a.size())); return m_S.accept; }
    for (size_t i = 0; i < a.size(); ++i) { std::string d = jcmp::diff(m_S.args.a[i], a[(int)i]); if (!d.empty()) m_L.say("argument " + std::to_string(i) + d); }
    if (m_S.throws & 1) throw Raised("parsing");
    m_Mine = a.size() ? json::Value(a[0]) : json::Value(true);
    return m_S.accept;
  }
  eni::Gas gas() const override {
    ++m_L.gas;
    if (!m_L.parse) m_L.say("the cost is asked before the arguments are parsed");
    if (!m_S.accept || !m_S.argsValid) m_L.say("the cost of rejected arguments is asked");
    if ((m_S.throws & 2) && (m_L.gas & 1)) throw Raised("the cost");
    return m_S.gas;
  }
  bool run(json::Array& r) override {
    int n = m_L.run++;
    if (!m_L.parse) m_L.say("the operation runs before its arguments are parsed");
    if (!m_S.accept || !m_S.argsValid) m_L.say("the operation runs on rejected arguments");
    if (r.size() != 0) m_L.say("a run begins with " + std::to_string(r.size()) + " results");
    if (m_S.argsValid && !m_S.args.a.empty()) { std::string d = jcmp::diff(m_S.args.a[0], m_Mine); if (!d.empty()) m_L.say("kept argument" + d); }
    if (!m_S.results.empty()) {
      const V& out = m_S.results[n % m_S.results.size()];
      json::Array whole; json::Array& to = (m_S.style & 12) ? whole : r;
      for (size_t i = 0; i < out.a.size(); ++i) {
        const V& v = out.a[i];
        if ((m_S.style & 1) && v.kind == jref::Str) to.emplace_back(v.s);
        else if ((m_S.style & 2) && v.kind == jref::Bool) to.emplace_back(v.b);
        else { json::Value x = jcmp::build(v); to.push_back(x); }
        if ((m_S.style & 16) && i == 0) inner();
      }
      if ((m_S.style & 12) == 4) r = whole; else if ((m_S.style & 12) == 8) r = std::move(whole); else if (m_S.style & 12) { r.push_back(json::Value(true)); r.swap(whole); }
    }
    if (raises(m_S, n)) throw Raised("run " + std::to_string(n));
    return ok(m_S, n);
  }
  void inner() {
    Echo e("[\"inner\",[5,{\"k\":true}]]"), f("[]"); char* t = e.start(); V got;
    if (!t || e.getGas() != 2 || f.getGas() != 0 || !jref::readStrict(t, got) || got.a.size() != 2 || got.a[0].s != "inner" || got.a[1].a.size() != 2) m_L.say("an operation that is run by an operation gives " + (t ? jcmp::show(t) : std::string("nothing")));
    free(t); got = V(); t = f.start(); if (!t || !jref::readStrict(t, got) || got.kind != jref::Arr || !got.a.empty()) m_L.say("an operation without arguments that is run by an operation gives " + (t ? jcmp::show(t) : std::string("nothing")));
    free(t);
  }
public:
  static bool raises(const Script& s, int n) { return s.throwBits >> (n & 15) & 1; }
  static bool ok(const Script& s, int n) { return s.okBits >> (n & 15) & 1; }
private:
  const Script& m_S; Log& m_L; json::Value m_Mine;
};
} // namespace

ENI_C_INTERFACE(logged, Logged)

namespace {
struct Inst { Script s; Log l; Logged* op = 0; int runs = 0; };

void check(const Case& c, Ctx& ctx) {
  struct All { std::vector<Inst*> v; std::vector<std::pair<char*, std::string>> kept;
    ~All() { for (auto i : v) { delete i->op; delete i; } for (auto& k : kept) free(k.first); } } all;
  Inst* slot[Slots] = {};
  size_t gasAsked = 0, starts = 0, rejected = 0, failures = 0, errors = 0;
  auto verify = [&](Inst* x, int parses) {
    PBT_CHECK(x->l.bad.empty(), x->l.bad);
    PBT_CHECK(x->l.parse == parses, "the arguments were parsed " << x->l.parse << " times instead of " << parses);
    PBT_CHECK(x->l.run == x->runs, "the operation ran " << x->l.run << " times in " << x->runs << " starts");
  };
  // calls something that may end by an error of a hook; returns the text of the error
  auto raised = [&](std::function<void()> f) -> std::string { try { f(); } catch (const Raised& e) { ++errors; return e.what(); } return ""; };
  auto result = [&](Inst* x, std::function<char*()> f, bool keep) {
    char* r = 0; std::string error = raised([&] { r = f(); }), due;
    if (x->s.argsValid && (x->s.throws & 1)) due = "parsing"; else if (x->s.argsValid && x->s.accept && Logged::raises(x->s, x->runs)) due = "run " + std::to_string(x->runs++);
    PBT_CHECK(error == due, "a start ends with the error \"" << error << "\" instead of \"" << due << "\"");
    if (!due.empty()) return;
    bool served = x->s.argsValid && x->s.accept;
    if (served) ++x->runs;
    bool give = served && Logged::ok(x->s, x->runs - 1);
    PBT_CHECK((r != 0) == give, "a start " << (give ? "gives no result" : "gives a result") << " when the operation " << (!served ? "rejects" : give ? "succeeds" : "fails"));
    if (!served) ++rejected; else if (!give) ++failures;
    if (!r) return;
    std::string t(r); if (keep) all.kept.push_back({r, t}); else free(r);
    V want; want.kind = jref::Arr; if (!x->s.results.empty()) want = x->s.results[(x->runs - 1) % x->s.results.size()];
    V got;
    PBT_CHECK(jref::readStrict(t, got), "the result is not JSON: " << jcmp::show(t));
    PBT_CHECK(jcmp::same(want, got), "the result is not what run " << x->runs - 1 << " returned: " << jcmp::show(t));
  };
  auto quote = [&](Inst* x, u64 cost, std::function<u64()> f) {
    u64 g = 0; std::string due, error = raised([&] { g = f(); });
    if (x->s.argsValid && (x->s.throws & 1)) due = "parsing"; else if (x->s.argsValid && x->s.accept && (x->s.throws & 2) && (x->l.gas & 1)) due = "the cost";
    PBT_CHECK(error == due, "a quote ends with the error \"" << error << "\" instead of \"" << due << "\"");
    if (due.empty()) PBT_CHECK(g == cost, "the gas is " << g << " instead of " << cost);
    ++gasAsked;
  };
  for (const Op& o : c) {
    if (o.k == "new" || o.k == "c") {
      std::string text = o.str(0); V args;
      jref::Reader rd(text, false);
      if (!rd.value(args) || rd.wideEscape) continue;
      Inst* x = new Inst; all.v.push_back(x);
      x->s.args = args; x->s.argsValid = args.kind == jref::Arr;
      x->s.accept = o.num(1) & 1; x->s.gas = (u64)o.num(2); x->s.okBits = o.num(3); x->s.style = (int)o.num(4); x->s.throwBits = o.num(5); x->s.throws = (int)o.num(6);
      for (size_t i = 1; i < o.s.size(); ++i) { V r; if (jref::readStrict(o.str(i), r) && r.kind == jref::Arr) x->s.results.push_back(r); }
      g_Script = &x->s; g_Log = &x->l;
      u64 cost = x->s.argsValid && x->s.accept ? x->s.gas : 1500;
      if (o.k == "new") {
        Inst*& y = slot[(u64)o.num(0) % Slots];
        if (y) { delete y->op; y->op = 0; PBT_CHECK(y->l.gone == 1, "an operation is destroyed " << y->l.gone << " times"); }
        y = x; x->op = new Logged(text);
        // the caller's text may go away
        std::fill(text.begin(), text.end(), '!'); text.clear(); text.shrink_to_fit();
        PBT_CHECK(!x->l.parse && !x->l.gas && !x->l.run, "a hook is called by the constructor");
      } else {                                               // the C entry points
        if (text.find('\0') != std::string::npos) continue;
        std::vector<char> buf(text.begin(), text.end()); buf.push_back(0);
        bool gas = o.num(0) & 1;
        if (gas) {
          quote(x, cost, [&] { eni::Gas* g = (eni::Gas*)logged_gas(buf.data()); PBT_CHECK(g, "no gas"); u64 v = *g; free(g); return v; });
        } else { result(x, [&] { return logged_run(buf.data()); }, o.num(0) & 2); ++starts; }
        PBT_CHECK(std::string(buf.data()) == text, "the argument text is changed");
        PBT_CHECK(x->l.made == 1 && x->l.gone == 1, "an entry point makes " << x->l.made << " and destroys " << x->l.gone << " operations");
        verify(x, x->s.argsValid ? 1 : 0);
      }
      continue;
    }
    Inst* x = slot[(u64)o.num(0) % Slots];
    if (!x) continue;
    u64 cost = x->s.argsValid && x->s.accept ? x->s.gas : 1500;
    if (x->s.argsValid && (x->s.throws & 1) && x->l.parse) continue;     // what follows an error of parsing is not said
    if (o.k == "gas") { quote(x, cost, [&] { return x->op->getGas(); }); if (!(x->s.accept && x->s.argsValid)) ++rejected; }
    else { result(x, [&] { return x->op->start(); }, o.num(1) & 1); ++starts; }
    verify(x, x->s.argsValid ? 1 : 0);
  }
  for (auto& k : all.kept) PBT_CHECK(k.second == k.first, "an earlier result is changed to " << jcmp::show(k.first));
  for (auto i : all.v) if (i->op) { delete i->op; i->op = 0; PBT_CHECK(i->l.gone == 1, "an operation is destroyed " << i->l.gone << " times"); }
  if (rejected) ctx.label("rejected");
  if (failures) ctx.label("failed run");
  if (errors) ctx.label("errors of hooks");
  if (starts > 1) ctx.label("several starts");
  ctx.nontrivial = gasAsked >= 1 && starts >= 1;
}

Case gen(Src& s) {
  Case c;
  size_t n = 2 + s.below(std::min(s.size(), 40));
  for (size_t i = 0; i < n; ++i) {
    size_t w = i == 0 ? 0 : s.weighted({2, 2, 6, 6});
    if (w < 2) {
      Op o(w == 0 ? "new" : "c");
      jref::GenOpt g; g.budget = (int)s.below(12); g.wsDensity = s.rare(30) ? 40 : 0; g.rawControls = true; g.maxStr = s.rare(3) ? 3000 : 20;
      std::string t;
      if (s.p(85)) { t = "["; size_t k = s.below(5); for (size_t j = 0; j < k; ++j) { if (j) t += ","; jref::genValue(s, g, 0, 3, t); } t += "]"; }
      else jref::genValue(s, g, 0, 3, t);
      o.s.push_back(t);
      size_t k = s.below(4);
      for (size_t q = 0; q < k; ++q) {
        jref::GenOpt h; h.budget = (int)s.below(8); h.wsDensity = 0; h.rawControls = false; h.maxStr = s.rare(5) ? 600 : 15;
        std::string r = "["; size_t m = s.below(4);
        for (size_t j = 0; j < m; ++j) { if (j) r += ","; jref::genValue(s, h, 0, 2, r); }
        o.s.push_back(r + "]");
      }
      static const std::vector<i64> gases = {0, 1, 7, 10, 1500, 1499, 65536, 4294967295ll, 4294967296ll, 9007199254740993ll, -1, INT64_MIN};
      if (!s.fromFuzzer() && s.below(9000) == 0) {          // beyond 16 bits
        size_t m = 65530 + s.below(8000); std::string big = "["; for (size_t j = 0; j < m; ++j) { if (j) big += ","; big += (char)('0' + j % 10); } big += "]";
        switch (s.below(4)) { case 0: o.s[0] = big; break; case 1: o.s.resize(1); o.s.push_back(big); break; case 2: o.s.resize(1); o.s.push_back("[\"" + std::string(m, 'r') + "\"]"); break; default: o.s[0] = "[\"" + std::string(m, 'a') + "\"]"; }
      }
      o.n = {(i64)s.below(4), s.p(75) ? 1 : 0, s.pick(gases), s.p(50) ? 65535 : (i64)s.below(65536), (i64)s.below(32), s.p(80) ? 0 : (i64)s.below(65536), s.p(90) ? 0 : (i64)s.below(4)};
      c.push_back(o);
    } else c.push_back(Op(w == 2 ? "gas" : "start", {(i64)s.below(s.p(60) ? 1 : Slots), (i64)s.below(2)}));
  }
  return c;
}
const Property P = {"C09", "histories of gas queries and starts on up to three operation instances and through the C entry points, over generated argument texts, with hooks that accept or reject, "
  "succeed, fail or raise per run, run other operations, and return generated results; every hook call is logged and compared with the permitted order, and every gas and result with the script; non-trivial: at least one gas query and one start",
  gen, check, [] { std::cerr.rdbuf(0); }};
} // namespace
const Property& pbt::property() { return P; }
