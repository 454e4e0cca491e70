// C29: operations built in every way, loaded together in a process in every order and manner.
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include "calls.hpp"
#include "json_eni.hpp"

using namespace pbt;
#define OP(n) char* n##_run(char*); uint64_t* n##_gas(char*);
extern "C" { OP(reverse) OP(json) OP(scrypt) OP(rsa_encrypt) OP(rsa_decrypt) }
namespace {
using jref::V;
std::string env(const std::string& n) { const char* v = getenv(n.c_str()); return v ? v : ""; }
const char* const kBuild[] = {"gcc2", "gcc0", "clang2"};
const char* const kOwn[] = {"gcc2/ownops.so", "gcc0/ownops.so", "clang2/ownops.so", "gcc2/ownops-14.so", "clang2/ownops-20.so", "gcc2/ownops-3.so"};
const char* const kOps[] = {"echo", "pick", "texts", "errors", "keep", "refuse", "who"};
const char* const kShipped[] = {"ENI_REVERSE", "ENI_JSON", "ENI_SCRYPT", "ENI_CRYPTO"};
enum { Own = 6, Libs = 6 + 12, Slots = 6 };
// library i: 0..5 the operations above, then the shipped ones of three builds
std::string pathOf(int i) {
  if (i < Own) { std::string k = kOwn[i]; return env("PBT_BUILD") + "/harness-" + k; }
  i -= Own; std::string b = kBuild[i / 4]; for (char& c : b) c = (char)toupper(c); return env("PBT_" + b + "_" + kShipped[i % 4]);
}
bool offers(int lib, const std::string& op) {
  if (lib < 0) return false;
  if (lib < Own) { for (auto o : kOps) if (op == o) return true; return false; }
  switch ((lib - Own) % 4) { case 0: return op == "reverse"; case 1: return op == "json"; case 2: return op == "scrypt"; default: return op == "rsa_encrypt" || op == "rsa_decrypt"; }
}
struct Host {
  pid_t pid = 0; int to = -1, from = -1;
  Host(int build, bool linked, int libs) {
    int a[2], b[2]; if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) fail("pipe");
    std::string exe = env("PBT_BUILD") + "/harness-" + kBuild[build] + (linked ? "/dlhost-linked" : "/dlhost");
    std::string path = "LD_LIBRARY_PATH=" + env("PBT_BUILD") + "/" + kBuild[libs];
    char* argv[] = {&exe[0], 0}; char* envp[] = {libs == 2 ? 0 : &path[0], 0};
    pid = fork();
    if (!pid) {
      int x = fcntl(a[0], F_DUPFD, 50), y = fcntl(b[1], F_DUPFD, 50), n = open("/dev/null", O_RDWR);
      dup2(n, 0); dup2(n, 1); dup2(n, 2); dup2(x, 3); dup2(y, 4); for (int i = 5; i < 100; ++i) close(i);
      execve(exe.c_str(), argv, envp); _exit(2);
    }
    close(a[0]); close(b[1]); to = a[1]; from = b[0];
  }
  ~Host() { if (to >= 0) close(to); if (from >= 0) close(from); if (pid) { kill(pid, SIGKILL); waitpid(pid, 0, 0); } }
  bool put(const std::string& s) { uint32_t n = s.size(); std::string m((char*)&n, 4); m += s; const char* c = m.data(); size_t k = m.size(); while (k) { ssize_t r = write(to, c, k); if (r <= 0) return false; c += r; k -= r; } return true; }
  bool take(void* p, size_t n) { char* c = (char*)p; while (n) { pollfd f = {from, POLLIN, 0}; if (poll(&f, 1, 60000) <= 0) return false; ssize_t r = read(from, c, n); if (r <= 0) return false; c += r; n -= r; } return true; }
  bool ask(const std::string& cmd, const std::string& op, const std::string& text, std::string& out) {
    uint32_t n; if (!put(cmd) || !put(op) || !put(text) || !take(&n, 4)) return false;
    out.assign(n, 0); return take(&out[0], n);
  }
  std::string end() {   // how it ends once nothing more is asked
    close(to); to = -1; char c; pollfd f = {from, POLLIN, 0};
    if (poll(&f, 1, 60000) <= 0 || read(from, &c, 1) > 0) return "does not end";
    int st = 0; waitpid(pid, &st, 0); pid = 0;
    return WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "status " + std::to_string(WEXITSTATUS(st));
  }
};
bool exact(const V& v) { if (!v.exact) return false; for (auto& x : v.a) if (!exact(x)) return false; for (auto& x : v.o) if (!exact(x.second)) return false; return true; }
V str(const std::string& s) { V v; v.kind = jref::Str; v.s = s; return v; }
V arr() { V v; v.kind = jref::Arr; return v; }
// what an operation above gives; false: nothing
bool expect(const std::string& op, int lib, const V& args, V& r) {
  r = arr();
  if (args.a.size() == 1 && args.a[0].kind == jref::Bool && !args.a[0].b) return false;
  const std::vector<V>& a = args.a;
  if (op == "echo") r = args;
  else if (op == "pick") {
    if (a.empty()) return false;
    for (size_t i = 1; i < a.size(); ++i) { bool in = a[i].kind == jref::Str && a[0].kind == jref::Obj && a[0].o.count(a[i].s); r.a.push_back(in ? a[0].o.at(a[i].s) : str("absent")); }
  } else if (op == "texts") {
    for (auto& x : a) {
      V v; if (x.kind != jref::Str) { v.kind = jref::Bool; r.a.push_back(v); continue; }
      r.a.push_back(str("?"));   // read again below
    }
  } else if (op == "errors") { for (auto t : {"out of range", "index", "length", "iterator", "delegate"}) r.a.push_back(str(t)); }
  else if (op == "keep") {
    V o; o.kind = jref::Obj; for (size_t i = 1; i < a.size(); i += 2) o.o["k" + std::to_string(i)] = a[i];
    V n; n.kind = jref::Int; n.s = std::to_string(o.o.size()); o.o["last"] = n; r.a.push_back(o);
  } else if (op == "who") { V n; n.kind = jref::Int; n.s = std::to_string(lib); r.a.push_back(n); }
  else return false;
  return true;
}
std::string direct(const std::string& op, const std::string& text) {   // the shipped operations of this process
  std::vector<char> b(text.begin(), text.end()); b.push_back(0);
  typedef char* (*R)(char*); typedef uint64_t* (*G)(char*);
  R r = op == "reverse" ? reverse_run : op == "json" ? json_run : op == "scrypt" ? scrypt_run : op == "rsa_encrypt" ? rsa_encrypt_run : rsa_decrypt_run;
  G g = op == "reverse" ? reverse_gas : op == "json" ? json_gas : op == "scrypt" ? scrypt_gas : op == "rsa_encrypt" ? rsa_encrypt_gas : rsa_decrypt_gas;
  uint64_t* q = g(b.data()); std::string out = std::to_string((unsigned long long)*q); free(q);
  char* t = r(b.data()); out += t ? std::string("|+") + t : "|-"; free(t); return out;
}
bool own(const std::string& op) { for (auto o : kOps) if (op == o) return true; return false; }
void check(const Case& c, Ctx& ctx) {
  if (c.empty() || c[0].k != "host") return;
  int build = (int)((u64)c[0].num(0) % 3), libs = (int)((u64)c[0].num(2) % 4); bool linked = c[0].num(1) & 1;
  Host h(build, linked, libs == 3 ? 2 : libs); int slot[Slots]; for (int& s : slot) s = -1;
  std::string so = std::string("a process of build ") + kBuild[build] + (linked ? " that uses the library itself" : "") + (libs == 2 || libs == 3 ? "" : std::string(", with the library of build ") + kBuild[libs]);
  int served = 0; std::set<int> seen;
  for (const Op& o : c) {
    int s = (int)((u64)o.num(0) % Slots); std::string cmd = o.k == "load" ? "L" : o.k == "unload" ? "U" : o.k == "call" ? "C" : o.k == "parse" ? "P" : o.k == "start" ? "O" : o.k == "end" ? "E" : "";
    if (cmd.empty()) continue;
    cmd += (char)s; char on = (char)((u64)o.num(o.k == "load" ? 3 : 1) % 4); std::string out, path, opn; int lib = slot[s];
    if (o.k == "load") {
      lib = (int)((u64)o.num(1) % Libs); cmd += (char)((u64)o.num(2) % 6); cmd += on; path = pathOf(lib);
      if (!h.ask(cmd, "", path, out)) fail("loading " + path + " ends the process: " + h.end() + ", in " + so);
      PBT_CHECK(out == "loaded", path << " does not load in " << so << ": " << out);
      slot[s] = lib; so += ", " + path.substr(path.find("/build/") + 7) + " loaded (" + std::to_string((u64)o.num(2) % 6) + ")"; seen.insert(lib); continue;
    }
    if (o.k == "end") { cmd += (char)0; cmd += on; if (!h.ask(cmd, "", "", out)) fail("the end of a thread ends the process: " + h.end() + ", in " + so); so += ", thread " + std::to_string(s & 1) + " ended"; ctx.label("thread ended"); continue; }
    if (o.k == "unload") { cmd += (char)0; cmd += on; if (!h.ask(cmd, "", "", out)) fail("unloading ends the process: " + h.end() + ", in " + so); if (lib >= 0) { so += ", slot " + std::to_string(s) + " unloaded"; ctx.label("unloaded"); } slot[s] = -1; continue; }
    cmd += (char)0; cmd += on;
    const std::string& t = o.str(1); opn = o.str(0);
    if (t.find('\0') != std::string::npos || ((o.k == "parse" || o.k == "start") && !linked)) continue;
    if (o.k == "call" && !offers(lib, opn)) continue;
    V v, r; jref::Reader rd(t, false); bool well = rd.value(v);
    if (well && (rd.wideEscape || !exact(v))) continue;
    if (o.k == "call" && !own(opn) && !calls::inDomain(opn, t)) continue;
    std::string what = (o.k == "call" ? opn : o.k == "parse" ? "a parser" : "an operation") + " of " + (o.k == "call" ? pathOf(lib) : "the program") + " on " + quote(t.substr(0, 1500));
    if (!well && o.k != "parse") {   // the end of the process
      ctx.label("malformed");
      bool alive = h.ask(cmd, opn, t, out); PBT_CHECK(!alive, what << " gives " << quote(out.substr(0, 300)) << " for malformed arguments, in " << so);
      std::string e = h.end(); PBT_CHECK(e.find("status ") == 0 && e != "status 0", what << ": malformed arguments, and the process ends with " << e << ", in " << so);
      if (seen.size() > 1) ctx.nontrivial = true;
      return;
    }
    if (!h.ask(cmd, opn, t, out)) fail(what + " ends the process: " + h.end() + ", in " + so);
    if (o.k == "parse") {
      V w; bool ok = well ? out.compare(0, 1, "+") == 0 && jref::readStrict(out.substr(1), w) && jcmp::same(v, w) : out == "refused";
      PBT_CHECK(ok, what << " gives " << quote(out.substr(0, 300)) << ", in " << so); ctx.label("own parser"); ++served; continue;
    }
    if (o.k == "start") {
      V w; bool ok = v.kind == jref::Arr ? out.compare(0, 1, "+") == 0 && jref::readStrict(out.substr(1), w) && w.kind == jref::Arr && w.a.size() == 1 && jcmp::same(v, w.a[0]) : out == "-";
      PBT_CHECK(ok, what << " gives " << quote(out.substr(0, 300)) << ", in " << so); ctx.label("own operation"); ++served; continue;
    }
    ctx.label(opn);
    if (!own(opn)) { std::string d = direct(opn, t); PBT_CHECK(out == d, what << " gives " << quote(out.substr(0, 300)) << ", not " << quote(d.substr(0, 300)) << ", in " << so); ++served; continue; }
    bool ok = v.kind == jref::Arr && expect(opn, lib, v, r), accepted = v.kind == jref::Arr && !(v.a.size() == 1 && v.a[0].kind == jref::Bool && !v.a[0].b);
    std::string g = std::to_string(accepted ? 1000 + v.a.size() : 1500) + (ok ? "|+" : "|-");
    PBT_CHECK(out.compare(0, g.size(), g) == 0, what << " gives " << quote(out.substr(0, 300)) << ", not " << g << "..., in " << so);
    ++served;
    if (!ok) { PBT_CHECK(out == g, what << " gives " << quote(out.substr(0, 300)) << ", in " << so); continue; }
    V w; PBT_CHECK(jref::readStrict(out.substr(g.size()), w) && w.kind == jref::Arr, what << " gives no array: " << quote(out.substr(0, 300)) << ", in " << so);
    if (opn == "texts") {
      PBT_CHECK(w.a.size() == v.a.size(), what << " gives " << w.a.size() << " results, in " << so);
      for (size_t i = 0; i < v.a.size(); ++i) {
        if (v.a[i].kind != jref::Str) { PBT_CHECK(jcmp::same(w.a[i], r.a[i]), what << " gives another result at " << i << ", in " << so); continue; }
        const std::string& x = v.a[i].s; V p, q; jref::Reader y(x, false); bool in = y.value(p); if (in && (y.wideEscape || !exact(p))) continue;
        PBT_CHECK(w.a[i].kind == jref::Str, what << " gives no text at " << i << ", in " << so);
        if (!in) { PBT_CHECK(w.a[i].s == "refused", what << " reads " << quote(x.substr(0, 300)) << " as " << quote(w.a[i].s.substr(0, 300)) << ", in " << so); ctx.label("refused text"); }
        else PBT_CHECK(jref::readStrict(w.a[i].s, q) && jcmp::same(p, q), what << " reads " << quote(x.substr(0, 300)) << " as " << quote(w.a[i].s.substr(0, 300)) << ", in " << so);
      }
    } else PBT_CHECK(jcmp::same(w, r), what << " gives " << quote(out.substr(0, 600)) << ", in " << so);
  }
  std::string e = h.end(); PBT_CHECK(e == "status 0", "the process ends with " << e << ": " << so);
  if (served > 1 && seen.size() > 1) ctx.nontrivial = true;
}
std::string genText(Src& s, const std::string& op) {
  jref::GenOpt g; g.budget = 14; g.wsDensity = s.p(70) ? 0 : 20; g.rawControls = false; g.maxStr = 20;
  if (op == "errors" || op == "refuse" || op == "who" || s.rare(8)) return s.rare(20) ? "[false]" : jref::genDoc(s, s.p(80), false);
  std::string t = "["; size_t n = s.below(5);
  if (op == "pick") {
    std::string ks[] = {"a", jref::genBytes(s, 4), jref::genBytes(s, 12), "k"}; t += "{";
    for (int i = 0; i < 4; ++i) { if (i) t += ","; t += calls::lit(s, ks[i]) + ":"; jref::genValue(s, g, 0, 3, t); }
    t += "}"; for (size_t i = 0; i <= n; ++i) { t += ","; if (s.p(85)) t += calls::lit(s, s.p(70) ? ks[s.below(4)] : jref::genBytes(s, 4)); else jref::genValue(s, g, 0, 1, t); }
    return t + "]";
  }
  for (size_t i = 0; i < n; ++i) {
    if (i) t += ",";
    if (op == "texts" && s.p(90)) { std::string x; jref::genValue(s, g, 0, 3, x); if (s.p(40) && !x.empty()) { size_t q = s.below(x.size()); if (s.p(50)) x.resize(q); else x[q] = "[]{}:,\"\\t1-e"[s.below(12)]; } for (char& c : x) if (!c) c = '0'; t += calls::lit(s, x); }
    else jref::genValue(s, g, 0, 4, t);
  }
  return t + "]";
}
Case gen(Src& s) {
  Case c; bool linked = s.p(40); c.push_back(Op("host", {(i64)s.below(3), linked, (i64)s.below(4)}));
  int slot[Slots]; for (int& x : slot) x = -1;
  size_t n = 4 + s.below(14);
  for (size_t i = 0; i < n; ++i) {
    int k = (int)s.below(Slots);
    int w = i < 2 ? 0 : (int)s.weighted({5, 2, 12, linked ? 3 : 0, 1});
    if (w == 4) { c.push_back(Op("end", {(i64)s.below(2)})); continue; }
    if (w == 0) { int lib = (int)(s.p(60) ? s.below(Own) : s.below(Libs)); slot[k] = lib; c.push_back(Op("load", {k, lib, (i64)s.below(6), s.p(60) ? 0 : (i64)s.below(4)})); continue; }
    if (w == 1) { slot[k] = -1; c.push_back(Op("unload", {k, s.p(60) ? 0 : (i64)s.below(4)})); continue; }
    if (w == 3) { std::string t = s.p(50) ? jref::genDoc(s, true, false) : genText(s, "echo"); bool p = s.p(60); if (p && s.rare(20)) t.resize(s.below(t.size() + 1)); c.push_back(Op(p ? "parse" : "start", {0, (i64)s.below(4)}, {"", t})); continue; }
    for (int q = 0; q < Slots && slot[k] < 0; ++q) k = (k + 1) % Slots;
    if (slot[k] < 0) continue;
    Op o;
    if (slot[k] < Own) { std::string op = kOps[s.weighted({5, 3, 4, 3, 3, 1, 2})]; o = Op("call", {}, {op, genText(s, op)}); }
    else { for (int q = 0; q < 40; ++q) { o = calls::gen(s, s.p(30)); if (offers(slot[k], o.str(0))) break; } if (!offers(slot[k], o.str(0))) continue; }
    if (s.rare(3)) { std::string& t = o.s[1]; t.resize(s.below(t.size() + 1)); }
    o.n = {k, (i64)s.below(4)}; c.push_back(o);
  }
  return c;
}
const Property P = {"C29", "scripts for a process that loads, unloads and calls operation libraries: own operations (echoing, selecting, reading texts, telling errors apart, keeping, refusing) built by two compilers at four levels and three language standards, and the shipped ones of three builds, "
  "loaded in any order, with six manners of loading, called on the main and other threads, some of which end after the libraries they used, in processes that do or do not use the library themselves, of three builds and with the library of three builds; non-trivial: two libraries and two calls", gen, check, [] { g_Steady = true; signal(SIGPIPE, SIG_IGN); keys::pool(); }};
} // namespace
const Property& pbt::property() { return P; }
