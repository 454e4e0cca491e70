// C19: the command line tools, run as processes.
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "json_eni.hpp"
#include "calls.hpp"
#define OP(n) char* n##_run(char*); uint64_t* n##_gas(char*);
extern "C" { OP(reverse) OP(json) OP(scrypt) OP(rsa_encrypt) OP(rsa_decrypt) OP(echo) OP(empty) OP(big) char* onlyrun_run(char*); uint64_t* onlygas_gas(char*); }
#include "testops.cpp"
extern char** environ;

using namespace pbt;
namespace {
std::string g_Dir;
std::string env(const char* n) { const char* v = getenv(n); return v ? v : ""; }

// libraries by number: what the argument says, and what it is
enum Lib { None, Test, Crypto, Scrypt, Reverse, Json, Self };
struct L { std::string path; Lib is; };
std::vector<L> g_Libs;

// LIB#n is the path of a library, LIB#n#k the same with k detours, REP#n#a#b#c is n times b between a and c
std::string expand(const std::string& t) {
  if (t.compare(0, 4, "LIB#") == 0) {
    char* rest; const L& l = g_Libs[strtoull(t.c_str() + 4, &rest, 10) % g_Libs.size()];
    if (*rest != '#' || l.path.empty() || l.path[0] != '/') return l.path;
    std::string way; for (u64 k = std::min<u64>(strtoull(rest + 1, 0, 10), 1900); k; --k) way += "/.";
    return way + l.path;
  }
  if (t.compare(0, 4, "REP#") != 0) return t;
  std::vector<std::string> f; size_t at = 4; for (size_t i; f.size() < 3 && (i = t.find('#', at)) != std::string::npos; at = i + 1) f.push_back(t.substr(at, i - at));
  if (f.size() < 3) return t;
  std::string out = f[1]; for (u64 k = std::min<u64>(strtoull(f[0].c_str(), 0, 10), f[2].empty() ? 0 : (131000 - std::min<u64>(131000, t.size())) / f[2].size()); k; --k) out += f[2];
  return out + t.substr(at);
}

struct Out { int status = -1; std::string text; };
Out spawn(const std::string& exe, const std::vector<std::string>& args) {
  std::vector<char*> av; std::string name = "tool"; av.push_back(&name[0]);
  for (auto& a : args) av.push_back(const_cast<char*>(a.c_str()));
  av.push_back(0);
  int p[2]; if (pipe2(p, O_CLOEXEC)) fail("pipe");
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
  posix_spawn_file_actions_adddup2(&fa, p[1], 1);
  posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
  pid_t pid; int rc = posix_spawn(&pid, exe.c_str(), &fa, 0, av.data(), environ);
  posix_spawn_file_actions_destroy(&fa); close(p[1]);
  if (rc) { close(p[0]); throw std::runtime_error("cannot start " + exe); }
  Out o; char buf[65536]; bool late = false;
  for (;;) {
    pollfd f = {p[0], POLLIN, 0};
    if (poll(&f, 1, 60000) <= 0) { late = true; kill(pid, SIGKILL); break; }
    ssize_t n = read(p[0], buf, sizeof buf); if (n <= 0) break; o.text.append(buf, n);
  }
  close(p[0]); int st; waitpid(pid, &st, 0);
  PBT_CHECK(!late, "the tool does not end");
  PBT_CHECK(WIFEXITED(st), "the tool is killed by signal " << WTERMSIG(st));
  o.status = WEXITSTATUS(st); return o;
}

void check(const Case& c, Ctx& ctx) {
  for (const Op& o : c) {
    if (o.k != "run" && o.k != "gas") continue;
    bool run = o.k == "run"; std::vector<std::string> args; bool nul = false;
    for (auto& a : o.s) {
      std::string t = expand(a);
      if (t.find('\0') != std::string::npos) nul = true;
      args.push_back(t);
    }
    if (nul) continue;
    // the reference reading of the command line
    std::vector<std::string> pos; bool end = false, opts = false;
    for (auto& a : args) {
      if (!end && a == "--") { end = true; opts = true; continue; }
      if (!end && !a.empty() && a[0] == '-') { opts = true; continue; }
      pos.push_back(a);
    }
    std::string want; int status = 0; const char* what = "served"; bool usage = pos.size() != 3;
    if (usage) { status = 2; what = "usage"; }
    else {
      Lib is = None; bool known = false; for (auto& l : g_Libs) {
        std::string p = pos[0]; if (p != l.path && !l.path.empty() && l.path[0] == '/') while (p.size() > l.path.size() && p.compare(0, 2, "/.") == 0) p.erase(0, 2);
        if (l.path == pos[0] || (l.path == p && l.is != Self)) { is = l.is; known = true; }
      }
      if (!known && pos[0].find('/') == std::string::npos && !pos[0].empty() && pos[0].find("no-such") != 0) continue;   // found by search paths or not
      const std::string& op = pos[1]; std::string& t = pos[2]; std::vector<char> b(t.begin(), t.end()); b.push_back(0);
      typedef char* (*Run)(char*); typedef uint64_t* (*Gas)(char*); Run rf = 0; Gas gf = 0; bool json = false;
      if (is == Test) {
        if (op == "echo") { rf = echo_run; gf = echo_gas; } else if (op == "none") { rf = none_run; gf = none_gas; } else if (op == "empty") { rf = empty_run; gf = empty_gas; }
        else if (op == "big") { rf = big_run; gf = big_gas; } else if (op == "onlyrun") rf = onlyrun_run; else if (op == "onlygas") gf = onlygas_gas;
        else if (op == LONG_NAME) { rf = longname_run; gf = longname_gas; }
      } else {
        json = true;
        if (is == Crypto && op == "rsa_encrypt") { rf = rsa_encrypt_run; gf = rsa_encrypt_gas; } else if (is == Crypto && op == "rsa_decrypt") { rf = rsa_decrypt_run; gf = rsa_decrypt_gas; }
        else if (is == Scrypt && op == "scrypt") { rf = scrypt_run; gf = scrypt_gas; } else if (is == Reverse && op == "reverse") { rf = reverse_run; gf = reverse_gas; }
        else if (is == Json && op == "json") { rf = json_run; gf = json_gas; }
      }
      if (is == None) { status = 3; what = "no library"; }
      else if (run ? !rf : !gf) { status = 4; what = "no operation"; }
      else {
        jref::V v;
        if (json && !jref::readPrefix(t, v)) { status = 87; what = "malformed arguments"; }
        else {
          if (json && !calls::inDomain(op, t)) continue;
          if (run) { char* r = rf(b.data()); if (r) { want = std::string(r) + "\n"; free(r); } else { status = 5; what = "no result"; } }
          else { uint64_t* g = gf(b.data()); if (g) { want = std::to_string(*g) + "\n"; free(g); } else { status = 5; what = "no result"; } }
        }
      }
    }
    Out got = spawn(env(run ? "PBT_ENI_RUN" : "PBT_ENI_GAS"), args);
    std::string cmd = run ? "eni_run" : "eni_gas"; for (auto& a : args) cmd += " " + jcmp::show(a);
    PBT_CHECK(got.text == want, cmd << " prints " << jcmp::show(got.text) << " instead of " << jcmp::show(want));
    if (usage) PBT_CHECK(got.status == 1 || got.status == 2, cmd << " exits with " << got.status << " on a usage error");
    else PBT_CHECK(got.status == status, cmd << " exits with " << got.status << " instead of " << status << " (" << what << ")");
    ctx.label(what); if (opts) ctx.label("options");
    if (opts || status) ctx.nontrivial = true;
  }
}
Case gen(Src& s) {
  Op o(s.p(50) ? "run" : "gas"); std::vector<std::string> pos;
  static const std::vector<std::string> ops = {"echo", "echo", "echo", "none", "empty", "big", "onlyrun", "onlygas", "nothing", "", "Echo", LONG_NAME, LONG_NAME "x"};
  size_t lib = s.below(10) < 6 ? s.below(g_Libs.size()) : 0;
  Lib is = g_Libs[lib].is; std::string op, text;
  if (is == Test || is == None || is == Self || s.rare(10)) {
    op = s.pick(ops); text = s.p(50) ? jref::genDoc(s, false, true).substr(0, 400) : s.pick(std::vector<std::string>{"", "-", "--", "x y", "-1", "[]", "\n", "-- ", "%s%n", "'\"$x"});
  } else {
    for (int i = 0; i < 40; ++i) { Op c = calls::gen(s, s.rare(30)); op = c.str(0); text = c.str(1);
      if ((is == Crypto) == (op[0] == 'r' && op[1] == 's') && (is == Scrypt) == (op == "scrypt") && (is == Reverse) == (op == "reverse") && (is == Json) == (op == "json")) break; }
    if (s.rare(10)) { static const char* bad[] = {"[", "", "\"a", "nul", "[1,", "{1:2}", "[tru]"}; text = bad[s.below(7)]; }
    if (s.rare(8)) op = s.pick(ops);
  }
  if (s.rare(6)) {   // long ones: the system gives up to 128 KiB to an argument
    u64 n = s.p(50) ? s.below(131000) : (1ull << (3 + s.below(15))) - s.below(8); std::string k = "REP#" + std::to_string(n) + "#";
    if (is == Test) text = s.p(50) ? k + "#ab#" : k + "{#xyz#}"; else if (is == Reverse || is == Scrypt) text = k + "[\"#" + (is == Scrypt ? "0" : "q") + "#\"]"; else if (is != None && s.p(50)) text = k + "[#[],#[]]";
    if (s.rare(5)) text = k + "#-#";
  }
  pos = {"LIB#" + std::to_string(lib), op, text};
  if (s.rare(8)) pos[0] += "#" + std::to_string(s.below(1900));
  if (s.rare(12)) pos.resize(s.below(3));
  else if (s.rare(12)) { size_t n = 1 + s.below(2); while (n--) pos.insert(pos.begin() + s.below(pos.size() + 1), s.pick(std::vector<std::string>{"", "extra", "[]"})); }
  static const std::vector<std::string> opt = {"-", "-x", "--help", "-1", "---", "--=", "-- ", "--lib", "-h"};
  bool dd = false;
  for (size_t i = 0; i <= pos.size(); ++i) {
    while (s.rare(20)) o.s.push_back(s.pick(opt));
    if (s.rare(60)) { size_t n = s.below(1200); std::string w = s.rare(3) ? "-" + std::string(s.below(3000), 'v') : "-v"; n = std::min<size_t>(n, 400000 / w.size()); while (n--) o.s.push_back(w); }
    if (s.rare(10) || (i < pos.size() && !pos[i].empty() && pos[i][0] == '-' && !dd && s.p(80))) { o.s.push_back("--"); dd = true; }
    if (i < pos.size()) o.s.push_back(pos[i]);
  }
  for (auto& a : o.s) for (char& ch : a) if (!ch) ch = 'n';
  return Case{o};
}
void init() { g_Steady = true;
  std::cerr.rdbuf(0); keys::pool();
  std::string test = env("PBT_HELPERS") + "/testops.so";
  g_Libs = {{test, Test}, {env("PBT_ENI_CRYPTO"), Crypto}, {env("PBT_ENI_SCRYPT"), Scrypt}, {env("PBT_ENI_REVERSE"), Reverse}, {env("PBT_ENI_JSON"), Json},
    {"/no-such/library.so", None}, {"no-such.so", None}, {"/", None}, {"/etc/passwd", None}, {"", Self}, {test + "/", None}, {"/." + test, Test}, {test + "x", None}};
}
const Property P = {"C19", "command lines for both tools: libraries that are there, missing, unloadable or empty, operations that are there or missing, any arguments, missing and extra positionals, options and double dashes anywhere, arguments of up to 128 KiB, paths and names of up to the system's limits, and thousands of options; "
  "output and status against a reference reading and the same operation called directly; non-trivial: an option, or a status other than 0", gen, check, init};
} // namespace
const Property& pbt::property() { return P; }
