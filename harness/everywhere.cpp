// C11: every call in several processes of several builds and environments.
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>
#include "calls.hpp"

using namespace pbt;
namespace {
std::string env(const std::string& n) { const char* v = getenv(n.c_str()); return v ? v : ""; }
struct Spec { const char* build; std::vector<const char*> vars; const char* locale; int in; bool shift; };   // in: 0 null, 1 text, 2 zeros, 3 closed
const std::vector<Spec>& specs() {
  static const std::vector<Spec> v = {
    {"GCC2", {"LC_ALL=C", "PATH=/usr/bin:/bin"}, "none", 0, false},
    {"GCC0", {"LC_ALL=de_DE.ISO8859-1", "LANG=de_DE.UTF-8", "MALLOC_PERTURB_=165", "GLIBC_TUNABLES=glibc.malloc.perturb=165", "HOME=/nowhere", "TZ=Asia/Taipei", "USER=nobody"}, "locale", 1, true},
    {"CLANG2", {"LANG=tr_TR.ISO8859-9", "MALLOC_ARENA_MAX=1", "GLIBC_TUNABLES=glibc.malloc.tcache_count=0:glibc.malloc.perturb=90", "DEBUG=1", "VERBOSE=1", "LOGNAME=x", "HOSTNAME=elsewhere"}, "locale", 2, false},
    {"GCC2", {"GLIBC_TUNABLES=glibc.malloc.perturb=255", "POSIXLY_CORRECT=1", "COLUMNS=7"}, "none", 3, true},
    {"CLANG2", {}, "none", 1, true},
    {"GCC0", {"LC_ALL=POSIX", "GLIBC_TUNABLES=glibc.malloc.perturb=1"}, "locale", 3, false},
  };
  return v;
}
std::string ownOf(std::string b) { for (char& c : b) c = (char)tolower(c); return env("PBT_BUILD") + "/harness-" + b + "/ownops.so"; }
struct Worker { pid_t pid = 0; int to = -1, from = -1; };
void start(Worker& w, const Spec& s) {
  int a[2], b[2], t[2] = {-1, -1};
  if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) fail("pipe");
  if (s.in == 1) { if (pipe2(t, O_CLOEXEC)) fail("pipe"); if (write(t[1], "secret\nsecret\n", 14)) {} close(t[1]); }
  std::string exe = env("PBT_HELPERS") + "/worker", e = s.build;
  std::vector<std::string> av = {"worker", env("PBT_" + e + "_ENI_CRYPTO"), env("PBT_" + e + "_ENI_SCRYPT"), env("PBT_" + e + "_ENI_REVERSE"), env("PBT_" + e + "_ENI_JSON"), s.locale, ownOf(s.build)};
  std::vector<char*> argv, envp; for (auto& x : av) argv.push_back(&x[0]); argv.push_back(0);
  std::string loc = "LOCPATH=" + env("PBT_LOCALES"), pre = "LD_PRELOAD=" + env("PBT_HELPERS") + "/timeshift.so";
  std::string inv = "PBT_INVENT=" + keys::pool()[0].pub + keys::pool()[0].priv; envp.push_back(&inv[0]);
  for (auto x : s.vars) envp.push_back(const_cast<char*>(x)); envp.push_back(&loc[0]); if (s.shift) envp.push_back(&pre[0]); envp.push_back(0);
  if (s.in == 1) { av[0] = "/opt/elsewhere/another name"; argv[0] = &av[0][0]; }
  pid_t pid = fork();
  if (!pid) {
    int in = s.in == 1 ? t[0] : s.in == 2 ? open("/dev/zero", O_RDONLY) : open("/dev/null", O_RDONLY);
    int x = fcntl(a[0], F_DUPFD, 50), y = fcntl(b[1], F_DUPFD, 50);
    dup2(in, 0); if (s.in == 3) close(0);
    dup2(x, 3); dup2(y, 4); for (int i = 5; i < 100; ++i) close(i);
    int n = open("/dev/null", O_WRONLY); if (n == 0) { n = dup(0); close(0); } dup2(n, 2); if (n > 4) close(n);
    if (s.in == 2) { cpu_set_t one; CPU_ZERO(&one); if (!sched_getaffinity(0, sizeof one, &one)) { int k = 0; while (k < CPU_SETSIZE - 1 && !CPU_ISSET(k, &one)) ++k; CPU_ZERO(&one); CPU_SET(k, &one); sched_setaffinity(0, sizeof one, &one); } umask(0777); }
    if (s.in == 1) { rlimit l; if (!getrlimit(RLIMIT_NOFILE, &l)) { l.rlim_cur = 64; setrlimit(RLIMIT_NOFILE, &l); } umask(0); }
    if (chdir(s.in & 1 ? "/" : "/tmp")) {}
    execve(exe.c_str(), argv.data(), envp.data()); _exit(2);
  }
  close(a[0]); close(b[1]); if (t[0] >= 0) close(t[0]);
  w.pid = pid; w.to = a[1]; w.from = b[0];
}
void stop(Worker& w) { if (!w.pid) return; close(w.to); close(w.from); kill(w.pid, SIGKILL); waitpid(w.pid, 0, 0); w = Worker(); }
bool put(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t r = write(fd, c, n); if (r <= 0) return false; c += r; n -= r; } return true; }
bool take(int fd, void* p, size_t n) { char* c = (char*)p; while (n) { pollfd f = {fd, POLLIN, 0}; if (poll(&f, 1, 60000) <= 0) return false; ssize_t r = read(fd, c, n); if (r <= 0) return false; c += r; n -= r; } return true; }
std::string ask(Worker& w, const std::string& op, const std::string& text, uint32_t flags) {
  uint32_t a = op.size(), b = text.size(), n;
  if (!put(w.to, &flags, 4) || !put(w.to, &a, 4) || !put(w.to, op.data(), a) || !put(w.to, &b, 4) || !put(w.to, text.data(), b) || !take(w.from, &n, 4)) { stop(w); return "the process ends or hangs"; }
  std::string s(n, 0); if (!take(w.from, &s[0], n)) { stop(w); return "the process ends"; }
  return s;
}
Worker g_Kept[3];
void check(const Case& c, Ctx& ctx) {
  struct Call { std::string op, text; bool ends; u64 flags; std::string out; const char* by; };
  std::vector<Call> calls;
  for (const Op& o : c) {
    const std::string& t = o.str(1); jref::V v; jref::Reader r(t, false);
    if (o.k != "call" || t.find('\0') != std::string::npos) continue;
    bool ok = r.value(v); if (!calls::inDomain(o.str(0), t)) continue;
    calls.push_back({o.str(0), t, !ok, (u64)o.num(0), "", ""});
    if (!ok) ctx.label("malformed"); ctx.label(o.str(0));
  }
  if (calls.empty()) return;
  size_t n = calls.size();
  auto one = [&](Worker& w, size_t i, u64 salt, const char* who) {
    Call& k = calls[i]; uint32_t f = (uint32_t)mix(k.flags + salt) & 0xffffb; if (salt == 0) f = 0; if (k.ends) f = (f & ~2u) | 4;
    std::string out = ask(w, k.op, k.text, f);
    if (out.find("the process ends") == 0) fail(k.op + " " + quote(k.text) + " (" + who + "): " + out);
    if (!*k.by) { k.out = out; k.by = who; }
    PBT_CHECK(out == k.out, k.op << " " << quote(k.text.substr(0, 1500)) << " gives " << quote(out.substr(0, 400)) << " in " << who << ", but " << quote(k.out.substr(0, 400)) << " in " << k.by);
  };
  for (int w = 0; w < 3; ++w) {
    if (!g_Kept[w].pid) start(g_Kept[w], specs()[w]);
    for (size_t q = 0; q < n; ++q) one(g_Kept[w], w == 1 ? n - 1 - q : q, (u64)w * 77, w == 0 ? "an optimised gcc build" : w == 1 ? "an unoptimised gcc build, other environment, other order" : "an optimised clang build, other environment");
  }
  // and first in a process of its own
  Worker fresh; struct Stop { Worker& w; ~Stop() { stop(w); } } st{fresh};
  size_t which = (size_t)(calls[0].flags % specs().size());
  start(fresh, specs()[which]);
  size_t from = (size_t)(calls[0].flags / 8 % n);
  for (size_t q = 0; q < n; ++q) one(fresh, (from + q) % n, 5 + which, "a fresh process");
  for (auto& k : calls) if (k.out.find("|+") != std::string::npos) { ctx.nontrivial = true; ctx.label("served"); }
}
Case gen(Src& s) {
  Case c; size_t n = 2 + s.below(6);
  for (size_t i = 0; i < n; ++i) {
    Op o = calls::gen(s, s.p(50));
    if (s.p(25)) {   // an operation of the harness: values printed as they come, members of objects in the order of the library
      std::string t = jref::genDoc(s, true, false); if (s.p(50)) { jref::GenOpt g; g.budget = 30; g.wsDensity = 0; g.rawControls = false; g.maxStr = 12; t = "[{"; size_t m = 1 + s.below(30); for (size_t q = 0; q < m; ++q) { if (q) t += ","; t += calls::lit(s, jref::genBytes(s, 6)) + ":"; jref::genValue(s, g, 0, 2, t); } t += "}]"; }
      o = Op("call", {}, {s.p(50) ? "echo" : s.p(50) ? "keep" : "errors", t});
    }
    if (s.rare(6)) { std::string& t = o.s[1]; t.resize(s.below(t.size() + 1)); if (s.p(30)) t += "]"; }
    o.n = {(i64)s.below(1 << 30)}; c.push_back(o);
  }
  return c;
}
const Property P = {"C11", "sequences of calls of every operation, and of three of the harness that print values and objects, served and rejected, in persistent processes of a gcc -O0, a gcc -O2 and a clang -O2 build with other environments, locales, heap contents, standard inputs, times, orders and histories, and first in a fresh process; "
  "gas, result and fate must agree; non-trivial: a served call", gen, check, [] { g_Steady = true; signal(SIGPIPE, SIG_IGN); keys::pool(); }};
} // namespace
const Property& pbt::property() { return P; }
