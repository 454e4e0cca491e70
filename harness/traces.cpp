// C32: an invocation, a reading or a printing leaves the process as it found it.
#include <cfenv>
#include <clocale>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <iostream>
#include <locale>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>
#include <eni_crypto/eni_crypto.h>
#include <eni_scrypt/eni_scrypt.h>
#include <json/Parser.h>
#include "json_eni.hpp"
#include "calls.hpp"
#include "locales.hpp"
#include "crypto_guard.hpp"

using namespace pbt;
#define OP(n) char* n##_run(char*); uint64_t* n##_gas(char*);
extern "C" { OP(reverse) OP(json) OP(scrypt) OP(rsa_encrypt) OP(rsa_decrypt) void __sanitizer_set_report_fd(void*) __attribute__((weak)); int pbt_writes(); }
extern char** environ;
namespace {
typedef char* (*Run)(char*); typedef uint64_t* (*Gas)(char*);
Run runOf(const std::string& o) { return o == "reverse" ? reverse_run : o == "json" ? json_run : o == "scrypt" ? scrypt_run : o == "rsa_encrypt" ? rsa_encrypt_run : rsa_decrypt_run; }
Gas gasOf(const std::string& o) { return o == "reverse" ? reverse_gas : o == "json" ? json_gas : o == "scrypt" ? scrypt_gas : o == "rsa_encrypt" ? rsa_encrypt_gas : rsa_decrypt_gas; }

struct Own : eni::EniBase {
  Own(const std::string& t, i64 how) : eni::EniBase(t), m_How(how) {}
  bool parse(const json::Array& a) override { m_All = json::Value(a); return m_How & 1; }
  eni::Gas gas() const override { return 3; }
  bool run(json::Array& r) override { r.push_back(m_All); return m_How & 2; }
  i64 m_How; json::Value m_All;
};

// ---------------------------------------------------------------- the state of the process
struct Count : std::streambuf {
  size_t n = 0;
  int overflow(int c) override { ++n; return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char*, std::streamsize k) override { n += (size_t)k; return k; }
};
Count g_Cout, g_Cerr; int g_Out = -1, g_Err = -1, g_Saved1 = -1, g_Saved2 = -1;
typedef std::vector<std::pair<std::string, std::string>> State;
template<class T> std::string raw(const T& t) { return std::string((const char*)&t, sizeof t); }
std::string num(long long n) { return std::to_string(n); }
void stream(State& s, const char* name, std::basic_ios<char>& x) {
  s.push_back({std::string("the format of ") + name, num((long long)x.flags()) + " " + num(x.precision()) + " " + num(x.width()) + " " + num(x.fill()) + " " + num((long long)(size_t)x.tie()) + " " + num((long long)(size_t)x.rdbuf()) + " " + num(x.exceptions()) + " " + num(x.rdstate()) + " " + x.getloc().name()});
}
std::string list(const char* dir, bool links) {
  std::string r; DIR* d = opendir(dir); if (!d) return "?"; int own = dirfd(d); std::set<std::string> all;
  while (dirent* e = readdir(d)) {
    std::string n = e->d_name; if (n[0] == '.' || (links && atoi(n.c_str()) == own)) continue;
    if (links) { char b[300]; ssize_t k = readlinkat(own, n.c_str(), b, sizeof b); int fd = atoi(n.c_str()); n += " " + std::string(b, k > 0 ? (size_t)k : 0) + " " + num(fcntl(fd, F_GETFD)) + " " + num(fcntl(fd, F_GETFL)); }
    all.insert(n);
  }
  closedir(d); for (auto& n : all) r += n + "\n"; return r;
}
// what may grow when something is used for the first time
State kept() {
  State s;
  s.push_back({"the open descriptors", list("/proc/self/fd", true)});
  s.push_back({"the threads", list("/proc/self/task", false)});
  pthread_key_t k; if (!pthread_key_create(&k, 0)) { pthread_key_delete(k); s.push_back({"the thread-specific keys", num(k)}); }
  return s;
}
State state() {
  State s; char b[4096];
  s.push_back({"the working directory", getcwd(b, sizeof b) ? b : "?"});
  s.push_back({"the files in the working directory", list(".", false)});
  s.push_back({"the files opened for writing", num(pbt_writes())});
  mode_t m = umask(0); umask(m); s.push_back({"the mask of file modes", num(m)});
  std::string e; for (char** p = environ; *p; ++p) e += std::string(*p) + "\n"; s.push_back({"the environment", e});
  s.push_back({"the locale", std::string(setlocale(LC_ALL, 0)) + " " + num((long long)(size_t)uselocale(0)) + " " + std::locale().name()});
  std::string h; for (int i = 1; i < 65; ++i) { struct sigaction a; memset(&a, 0, sizeof a); if (!sigaction(i, 0, &a)) h += num(i) + " " + num((long long)(size_t)a.sa_handler) + " " + num(a.sa_flags) + " " + num(sigismember(&a.sa_mask, SIGTERM)) + "\n"; }
  s.push_back({"the signal handlers", h});
  sigset_t g; sigemptyset(&g); pthread_sigmask(SIG_BLOCK, 0, &g); h.clear(); for (int i = 1; i < 65; ++i) h += sigismember(&g, i) ? '1' : '0'; s.push_back({"the blocked signals", h});
  sigpending(&g); h.clear(); for (int i = 1; i < 65; ++i) h += sigismember(&g, i) ? '1' : '0'; s.push_back({"the pending signals", h});
  stack_t st; memset(&st, 0, sizeof st); sigaltstack(0, &st); s.push_back({"the signal stack", num((long long)(size_t)st.ss_sp) + " " + num((long long)st.ss_size)});
  for (int i : {ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF}) { itimerval t; if (!getitimer((__itimer_which)i, &t)) s.push_back({"timer " + num(i), num(t.it_interval.tv_sec) + " " + num(t.it_value.tv_sec || t.it_value.tv_usec)}); }
  for (int i = 0; i < RLIM_NLIMITS; ++i) { rlimit r; if (!getrlimit((__rlimit_resource)i, &r)) s.push_back({"limit " + num(i), num((long long)r.rlim_cur) + " " + num((long long)r.rlim_max)}); }
  s.push_back({"the priority", num(getpriority(PRIO_PROCESS, 0))});
  cpu_set_t c; CPU_ZERO(&c); sched_getaffinity(0, sizeof c, &c); s.push_back({"the processors", raw(c)});
  memset(b, 0, 32); prctl(PR_GET_NAME, b); s.push_back({"the name of the thread", b});
  s.push_back({"the rounding of numbers", num(fegetround()) + " " + num(fegetexcept()) + " " + num(_mm_getcsr() & ~0x3fu)});
  stream(s, "std::cout", std::cout); stream(s, "std::cerr", std::cerr); stream(s, "std::clog", std::clog); stream(s, "std::cin", std::cin);
  s.push_back({"the handlers of the language", num((long long)(size_t)std::get_terminate()) + " " + num((long long)(size_t)std::get_new_handler())});
  siginfo_t w; memset(&w, 0, sizeof w); s.push_back({"the children", num(waitid(P_ALL, 0, &w, WEXITED | WNOHANG | WNOWAIT)) + " " + num(w.si_pid)});
  s.push_back({"the position of the standard input", num(lseek(0, 0, SEEK_CUR))});
  return s;
}
void same(const State& a, const State& b, const std::string& what) {
  for (size_t i = 0; i < a.size() && i < b.size(); ++i)
    PBT_CHECK(a[i].second == b[i].second, what << " changes " << a[i].first << " from " << jcmp::show(a[i].second) << " to " << jcmp::show(b[i].second));
}
size_t sizeOf(int fd) { struct stat s; return fstat(fd, &s) ? 0 : (size_t)s.st_size; }
// the output of the process goes to files of memory meanwhile
struct Caught {
  std::streambuf *o, *e; size_t n1, n2;
  Caught() : o(std::cout.rdbuf(&g_Cout)), e(std::cerr.rdbuf(&g_Cerr)) { std::cerr.clear(); std::cout.clear(); fflush(stdout); dup2(g_Out, 1); dup2(g_Err, 2); n1 = sizeOf(1); n2 = sizeOf(2); g_Cout.n = g_Cerr.n = 0; }
  size_t out() { fflush(stdout); return sizeOf(1) - n1 + g_Cout.n; }
  size_t err() { return sizeOf(2) - n2 + g_Cerr.n; }
  ~Caught() { fflush(stdout); if (sizeOf(1) > 1 << 20 && ftruncate(1, 0)) {} if (sizeOf(2) > 1 << 20 && ftruncate(2, 0)) {} dup2(g_Saved1, 1); dup2(g_Saved2, 2); std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

// the state a use meets is not that of a fresh process
void onSignal(int) {} void onTerminate() { abort(); } void onNew() { throw std::bad_alloc(); }
struct Given {
  u64 how; std::string loc; mode_t mask = 0; std::ios fmt{0}, fmtErr{0}; struct sigaction pipe, fpe, usr; sigset_t set; int round = 0; std::terminate_handler term = nullptr; std::new_handler fresh = nullptr; char name[32]; rlimit core, files;
  explicit Given(u64 h) : how(h) {
    static const char* const kLocs[] = {"C.utf8", "de_DE.ISO8859-1", "tr_TR.ISO8859-9"};
    if (how & 1) { loc = setlocale(LC_ALL, 0); setlocale(LC_ALL, kLocs[how >> 9 & 1 ? 1 + (how >> 10 & 1) : 0]); }
    if (how & 2) mask = umask(how >> 9 & 1 ? 0 : 027);
    if (how & 4) { fmt.copyfmt(std::cout); fmtErr.copyfmt(std::cerr); for (std::ostream* s : {(std::ostream*)&std::cout, (std::ostream*)&std::cerr}) { s->flags(std::ios::hex | std::ios::boolalpha | std::ios::left | std::ios::skipws); s->precision(3); s->fill('*'); } }
    if (how & 8) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = how >> 9 & 1 ? SIG_IGN : onSignal; sigaction(SIGPIPE, &a, &pipe); sigaction(SIGFPE, &a, &fpe); sigaction(SIGUSR1, &a, &usr); }
    if (how & 16) { sigset_t b; sigemptyset(&b); sigaddset(&b, SIGUSR1); sigaddset(&b, SIGPIPE); pthread_sigmask(SIG_BLOCK, &b, &set); raise(SIGUSR1); }
    if (how & 32) { round = fegetround(); fesetround(how >> 9 & 1 ? FE_UPWARD : FE_TOWARDZERO); }
    if (how & 64) { term = std::set_terminate(onTerminate); fresh = std::set_new_handler(onNew); }
    if (how & 128) { itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = 90000; setitimer(ITIMER_VIRTUAL, &t, 0); }
    if (how & 2) { getrlimit(RLIMIT_CORE, &core); getrlimit(RLIMIT_NOFILE, &files); rlimit r = core; r.rlim_cur = std::min<rlim_t>(r.rlim_max, 4096); setrlimit(RLIMIT_CORE, &r); r = files; r.rlim_cur = std::min<rlim_t>(r.rlim_max, 500 + (how >> 9)); setrlimit(RLIMIT_NOFILE, &r); }
    if (how & 256) { memset(name, 0, sizeof name); prctl(PR_GET_NAME, name); prctl(PR_SET_NAME, "node"); setenv("ENI_LIBRARY_PATH", "x", 1); }
  }
  ~Given() {
    if (how & 1) setlocale(LC_ALL, loc.c_str());
    if (how & 2) { umask(mask); setrlimit(RLIMIT_CORE, &core); setrlimit(RLIMIT_NOFILE, &files); }
    if (how & 4) { std::cout.copyfmt(fmt); std::cerr.copyfmt(fmtErr); }
    if (how & 16) { struct sigaction a, old; memset(&a, 0, sizeof a); a.sa_handler = SIG_IGN; sigaction(SIGUSR1, &a, &old); sigaction(SIGUSR1, &old, 0); pthread_sigmask(SIG_SETMASK, &set, 0); }
    if (how & 8) { sigaction(SIGPIPE, &pipe, 0); sigaction(SIGFPE, &fpe, 0); sigaction(SIGUSR1, &usr, 0); }
    if (how & 32) fesetround(round);
    if (how & 64) { std::set_terminate(term); std::set_new_handler(fresh); }
    if (how & 128) { itimerval t; memset(&t, 0, sizeof t); setitimer(ITIMER_VIRTUAL, &t, 0); }
    if (how & 256) { prctl(PR_SET_NAME, name); unsetenv("ENI_LIBRARY_PATH"); }
  }
};

// ---------------------------------------------------------------- the uses
template<class F> void instance(const std::string& t, i64 order) { F x(t); for (int i = 0; i < 4; ++i) { if (order >> i & 1) free(x.start()); else x.getGas(); } }
struct Use { bool known = false, well = true; };
Use once(const Op& o, std::string& bad) {
  Use u; const std::string& t = o.str(1);
  if (o.k == "text") {
    json::Parser p(o.str(0)); u.known = true; u.well = (bool)p; if (!p) return u;
    std::ostringstream os; u64 f = (u64)o.num(0);
    os.flags((std::ios::fmtflags)((f & 1 ? std::ios::hex : f & 2 ? std::ios::oct : std::ios::dec) | (f & 4 ? std::ios::showbase : std::ios::fmtflags(0)) | (f & 8 ? std::ios::uppercase : std::ios::fmtflags(0)) | (f & 16 ? std::ios::left : std::ios::fmtflags(0)) | (f & 32 ? std::ios::boolalpha : std::ios::fmtflags(0)) | (f & 64 ? std::ios::showpos : std::ios::fmtflags(0))));
    os.fill("* 0x"[f >> 7 & 3]); os.precision((std::streamsize)(f >> 9 & 31));
    std::ios before(0); before.copyfmt(os);
    json::Value v(p.getRoot());
    try { v.print(os); } catch (const std::runtime_error&) {}     // numbers below zero have no octal and hexadecimal form
    if (os.flags() != before.flags() || os.fill() != before.fill() || os.precision() != before.precision() || os.exceptions() != before.exceptions()) bad = "printing changes the format of the stream";
    return u;
  }
  if (t.find('\0') != std::string::npos) return u;
  jref::V v; jref::Reader r(t, false); if (!r.value(v)) return u;
  if (o.k == "own") { Own x(t, o.num(0)); for (int i = 3; i < 7; ++i) { if (o.num(0) >> i & 1) free(x.start()); else x.getGas(); } u.known = true; return u; }
  if (o.k == "hex") { std::string h, q; eni_crypto::str2hex(o.str(0), h); eni_crypto::hex2str(h, q); eni_crypto::hex2str(o.str(0), q); u.known = true; return u; }
  const std::string& op = o.str(0);
  bool known = false; for (auto& n : calls::names()) known = known || n == op;
  if (o.k != "call" || !known || !calls::inDomain(op, t)) return u;
  std::vector<char> b(t.begin(), t.end()); b.push_back(0);
  if (o.num(0) & 16) { free(gasOf(op)(b.data())); }
  if (o.num(0) & 32) { free(runOf(op)(b.data())); }
  if (op == "scrypt") instance<Scrypt>(t, o.num(0));
  if (op == "rsa_encrypt") instance<eni_crypto::RSAEncrypt>(t, o.num(0));
  if (op == "rsa_decrypt") instance<eni_crypto::RSADecrypt>(t, o.num(0));
  u.known = true; return u;
}
void check(const Case& c, Ctx& ctx) {
  for (const Op& o : c) {
    std::string what = o.k == "text" ? "reading and printing " + jcmp::show(o.str(0)) : o.k == "hex" ? "coding " + jcmp::show(o.str(0)) : o.k == "own" ? "an operation with " + jcmp::show(o.str(1)) : o.str(0) + " with " + jcmp::show(o.str(1));
    std::string bad; Use u; size_t out, err; bool order, token, order48;
    State a, b, k1, k2;
    {
      Caught caught; Given given((u64)o.num(1)); char text[] = "one two three"; char sep[] = " ";
      a = state();
      srand(99); int r = rand(); srand(99); srand48(5); long r48 = lrand48(); srand48(5); strtok(text, sep);
      u = once(o, bad);
      order = rand() == r; order48 = lrand48() == r48; char* t = strtok(0, sep); token = t && std::string(t) == "two";
      k1 = kept();
      if (u.known) once(o, bad);
      k2 = kept(); b = state();
      out = caught.out(); err = caught.err();
    }
    if (!u.known) continue;
    PBT_CHECK(bad.empty(), what << ": " << bad);
    PBT_CHECK(out == 0, what << " writes " << out << " bytes to the standard output");
    PBT_CHECK(!u.well || err == 0, what << " writes " << err << " bytes to the standard error");
    PBT_CHECK(order && order48, what << " goes on with the random numbers of the process");
    PBT_CHECK(token, what << " takes over the string that the process has under strtok");
    same(a, b, what); same(k1, k2, what);
    ctx.label(o.k == "call" ? o.str(0) : o.k); if (!u.well) ctx.label("malformed text");
    if (u.well && o.str(o.k == "text" || o.k == "hex" ? 0 : 1).size() > 8) ctx.nontrivial = true;
  }
}
Case gen(Src& s) {
  Case c; size_t n = 1 + s.below(3);
  while (n--) switch (s.weighted({6, 3, 2, 1})) {
    case 0: { Op o = calls::gen(s, s.p(50)); o.n = {(i64)s.below(64), 0}; c.push_back(o); break; }
    case 1: {
      std::string t = jref::genDoc(s, s.p(50), true);
      if (s.p(30) && !t.empty()) { if (s.p(50)) t.resize(s.below(t.size())); else t[s.below(t.size())] = "]}[{\",:x1"[s.below(9)]; }
      c.push_back(Op("text", {(i64)s.below(1 << 14), 0}, {t})); break;
    }
    case 2: c.push_back(Op("own", {(i64)s.below(128), 0}, {"", jref::genDoc(s, s.p(90), true)})); break;
    default: c.push_back(Op("hex", {0, 0}, {s.p(50) ? jref::genBytes(s, 60) : std::string(s.below(9), "0aF g"[s.below(5)]), "[]"})); break;
  }
  for (Op& o : c) if (s.p(60)) o.n[1] = s.p(50) ? (i64)s.below(1 << 11) : (i64)(1 << s.below(9));
  return c;
}
std::string g_Dir;
void init() {
  keys::pool(); locales::list();
  g_Saved1 = fcntl(1, F_DUPFD_CLOEXEC, 100); g_Saved2 = fcntl(2, F_DUPFD_CLOEXEC, 100);
  if (__sanitizer_set_report_fd) __sanitizer_set_report_fd((void*)(size_t)g_Saved2);
  g_Out = memfd_create("out", MFD_CLOEXEC); g_Err = memfd_create("err", MFD_CLOEXEC);
  fcntl(g_Out, F_SETFL, O_APPEND); fcntl(g_Err, F_SETFL, O_APPEND);
  char d[] = "traces.XXXXXX"; char full[4096];
  if (mkdtemp(d) && realpath(d, full)) { g_Dir = full; if (chdir(full)) {} atexit([] { if (chdir("/") == 0) rmdir(g_Dir.c_str()); }); }
}
const Property P = {"C32", "invocations of every shipped operation, served and rejected, instances in generated orders, an operation of the harness, readings of whole and damaged documents printed to streams of any format, and the hex codec, twice each and in processes of other settings; "
  "output, descriptors, files, environment, locale, signals, timers, limits, modes of numbers, streams, handlers, generators and threads of the process are compared; non-trivial: a well-formed text of more than 8 bytes", gen, check, init};
} // namespace
const Property& pbt::property() { return P; }
