// Engine: text form, statistics, exploration, replay, shrinking, fuzz entry.
#include "pbt.hpp"
#include "elsewhere.hpp"
#define PBT_HERE
#include "timeshift.cpp"
#include <algorithm>
#include <cstdarg>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

std::string quote(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch >= 32 && ch < 127) o += ch;
    else { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
  }
  return o + "\"";
}

std::string toText(const Case& c) {
  std::string o;
  for (const Op& op : c) {
    o += op.k;
    for (i64 v : op.n) o += " " + std::to_string(v);
    for (const std::string& s : op.s) o += " " + quote(s);
    o += "\n";
  }
  return o;
}

bool fromText(const std::string& t, Case& c) {
  c.clear();
  std::istringstream is(t);
  std::string line;
  while (std::getline(is, line)) {
    if (line.empty() || line[0] == '#') continue;
    Op op; size_t i = 0;
    while (i < line.size() && line[i] != ' ') op.k += line[i++];
    while (i < line.size()) {
      if (line[i] == ' ') { ++i; continue; }
      if (line[i] == '"') {
        std::string s; ++i;
        while (i < line.size() && line[i] != '"') {
          if (line[i] == '\\' && i + 1 < line.size()) {
            if (line[i + 1] == 'x' && i + 3 < line.size()) { s += (char)strtol(line.substr(i + 2, 2).c_str(), 0, 16); i += 4; continue; }
            s += line[i + 1]; i += 2; continue;
          }
          s += line[i++];
        }
        ++i; op.s.push_back(s);
      } else {
        char* e; op.n.push_back(strtoll(line.c_str() + i, &e, 10));
        size_t j = e - line.c_str(); if (j == i) return false; i = j;
      }
    }
    c.push_back(op);
  }
  return true;
}

Stats& stats() { static Stats* s = new Stats; return *s; }

void fail(const std::string& what) { throw Fail{what}; }

// half of the cases run with other answers to what is asked for outside the arguments
bool g_Steady = false;
static bool elsewhere(const Case& c) {
  if (g_Steady) return false;
  u64 h = c.size();
  for (const Op& o : c) { for (i64 n : o.n) h = mix(h + (u64)n); for (auto& t : o.s) h = mix(h + t.size() + (t.empty() ? 0 : (unsigned char)t[t.size() / 2])); }
  return mix(h) & 1;
}

bool runOne(const Case& c, Ctx& ctx, std::string& why) {
  Elsewhere e(elsewhere(c));
  try { property().check(c, ctx); return true; }
  catch (const Fail& f) { why = f.what; }
  catch (const std::exception& e) { why = std::string("uncaught exception: ") + e.what(); }
  catch (...) { why = "uncaught exception of unknown type"; }
  return false;
}

static std::string clip(std::string s, size_t n = 1200) {
  if (s.size() > n) s = s.substr(0, n) + "... (" + std::to_string(s.size()) + " bytes)";
  return s;
}

static void account(const Case& c, const Ctx& ctx) {
  Stats& st = stats();
  ++st.evaluations;
  for (const std::string& l : ctx.labels) ++st.labels[l];
  if (ctx.nontrivial) {
    ++st.nontrivial;
    std::string t;
    t = toText(c);
    bool fresh = st.distinct.size() < 4000000 && st.distinct.insert(hashBytes(t.data(), t.size())).second;
    u64 d = st.distinct.size();
    if (fresh && (d == 3 || d == 17 || d == 101) && st.samples.size() < 3) st.samples.push_back(clip(t));
  }
}

static std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch == '\n') o += "\\n";
    else if (ch >= 32 && ch < 127) o += ch;
    else { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
  }
  return o + "\"";
}

static void writeStats(const std::string& path) {
  Stats& st = stats();
  std::ofstream f(path + ".tmp");
  f << "{\"evaluations\":" << st.evaluations << ",\"nontrivial\":" << st.nontrivial
    << ",\"rule\":" << jstr(property().rule) << ",\"labels\":{";
  bool first = true;
  for (auto& l : st.labels) { f << (first ? "" : ",") << jstr(l.first) << ":" << l.second; first = false; }
  f << "},\"samples\":[";
  first = true;
  for (auto& s : st.samples) { f << (first ? "" : ",") << jstr(s); first = false; }
  f << "]}";
  f.close();
  rename((path + ".tmp").c_str(), path.c_str());
  std::ofstream h(path + ".hashes", std::ios::binary);
  for (u64 v : st.distinct) h.write((const char*)&v, 8);
}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// A case that burns this much CPU time is reported as a hang.
static int g_CpuLimit = 40;
static void onCpu(int) {
  static const char m[] = "\nPBT-HANG: the case exceeded its CPU time limit\n";
  if (write(2, m, sizeof m - 1)) {}
  _exit(79);
}
static void armCpu() {
  itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = g_CpuLimit;
  setitimer(ITIMER_PROF, &t, 0);
}

static volatile bool g_InCase = false;
static pid_t g_Pid = 0;
// The code under test ended the process from inside a case.
static void onExit() {
  if (g_InCase && getpid() == g_Pid) {
    static const char m[] = "\nPBT-EXIT: the process was ended from inside a case\n";
    if (write(2, m, sizeof m - 1)) {}
    _exit(78);
  }
}

static void processInit() {
  signal(SIGPROF, onCpu);
  g_Pid = getpid();
  static bool once = false;
  if (!once) { once = true; atexit(onExit); if (property().init) property().init(); }
}

static bool readFile(const std::string& p, std::string& o) {
  std::ifstream f(p, std::ios::binary); if (!f) return false;
  std::ostringstream s; s << f.rdbuf(); o = s.str(); return true;
}

static bool guarded(const Case& c, Ctx& ctx, std::string& why) {
  armCpu();
  g_InCase = true;
  bool ok = runOne(c, ctx, why);
  g_InCase = false;
  return ok;
}

// ------------------------------------------------------------------ shrinker
// true: the candidate fails (in a process of its own)
static bool failsIsolated(const Case& c, double secs) {
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 1); dup2(fd, 2); }
    g_Pid = getpid();
    rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    alarm((unsigned)secs + 1);
    Ctx ctx; std::string why;
    bool ok = guarded(c, ctx, why);
    _exit(ok ? 0 : 3);
  }
  int st = 0; waitpid(pid, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

static void simplerStrings(const std::string& s, std::vector<std::string>& out) {
  size_t n = s.size();
  if (n) out.push_back("");
  for (size_t chunk = n / 2; chunk >= 1; chunk /= 2) {
    size_t tries = 0;
    for (size_t i = 0; i + chunk <= n && tries < 40; i += chunk, ++tries) out.push_back(s.substr(0, i) + s.substr(i + chunk));
    if (chunk == 1) break;
  }
  for (size_t i = 0; i < n && i < 60; ++i) if (s[i] != 'a') {
    std::string t = s; t[i] = 'a'; if (s[i] > 'a' || s[i] < '0') out.push_back(t);
  }
}

static Case shrink(Case c, double secs) {
  double t0 = now();
  unsigned tries = 0;
  auto left = [&] { return now() - t0 < secs && tries < 4000; };
  auto attempt = [&](const Case& d) { ++tries; if (failsIsolated(d, 20)) { c = d; return true; } return false; };
  bool progress = true;
  while (progress && left()) {
    progress = false;
    for (size_t chunk = std::max<size_t>(c.size() / 2, 1); chunk >= 1 && left(); chunk /= 2) {
      for (size_t i = 0; i + chunk <= c.size() && left();) {
        Case d(c.begin(), c.begin() + i); d.insert(d.end(), c.begin() + i + chunk, c.end());
        if (!d.empty() && attempt(d)) progress = true; else i += chunk;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < c.size() && left(); ++i) {
      for (size_t j = 0; j < c[i].s.size() && left(); ++j) {
        bool again = true;
        while (again && left()) {
          again = false;
          std::vector<std::string> cand; simplerStrings(c[i].s[j], cand);
          for (auto& s : cand) {
            if (!left()) break;
            Case d = c; d[i].s[j] = s;
            if (attempt(d)) { again = progress = true; break; }
          }
        }
      }
      for (size_t j = 0; j < c[i].n.size() && left(); ++j) {
        bool again = true;
        while (again && left()) {
          again = false;
          i64 v = c[i].n[j];
          std::vector<i64> cand;
          if (v != 0) { cand.push_back(0); if (v < 0 && v != INT64_MIN) cand.push_back(-v); cand.push_back(v / 2); cand.push_back(v > 0 ? v - 1 : v + 1); }
          for (i64 w : cand) {
            if (w == v || !left()) continue;
            Case d = c; d[i].n[j] = w;
            if (attempt(d)) { again = progress = true; break; }
          }
        }
      }
    }
  }
  return c;
}

static void save(const std::string& path, const std::string& body) {
  std::ofstream f(path, std::ios::binary); f << body;
}

int mainExplore(int argc, char** argv) {
  std::map<std::string, std::string> a;
  for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
  auto num = [&](const char* k, double d) { return a.count(k) ? atof(a[k].c_str()) : d; };
  auto unum = [&](const char* k, u64 d) { return a.count(k) ? strtoull(a[k].c_str(), 0, 10) : d; };
  g_CpuLimit = (int)num("--cpu", 40);
  std::string mode = a.count("--mode") ? a["--mode"] : "explore";

  if (mode == "dump") { // print the case of a seed and index
    u64 i = unum("--first", 0);
    Src s(unum("--seed", 1), i, sizeFor(i));
    std::string t = toText(property().generate(s));
    fwrite(t.data(), 1, t.size(), stdout);
    return 0;
  }
  if (mode == "decode") { // print the case of a fuzzer input
    std::string b; if (!readFile(a["--in"], b)) return 2;
    Src s((const uint8_t*)b.data(), b.size(), 100);
    std::string t = toText(property().generate(s));
    fwrite(t.data(), 1, t.size(), stdout);
    return 0;
  }
  if (mode == "replay") {
    std::string t; Case c; if (!readFile(a["--in"], t) || !fromText(t, c)) return 2;
    processInit();
    Ctx ctx; ctx.verbose = true; std::string why;
    if (guarded(c, ctx, why)) { printf("held\n"); return 0; }
    printf("FAILED: %s\n", clip(why, 3000).c_str());
    fflush(stdout); _exit(3);
  }
  if (mode == "shrink") {
    std::string t; Case c; if (!readFile(a["--in"], t) || !fromText(t, c)) return 2;
    processInit();
    g_CpuLimit = std::min(g_CpuLimit, 15);
    if (!failsIsolated(c, 60)) { printf("not reproduced in isolation\n"); return 0; }
    save(a["--out"], toText(shrink(c, num("--secs", 60))));
    _exit(3);
  }

  // explore
  processInit();
  u64 seed = unum("--seed", 1), first = unum("--first", 0), count = unum("--count", 1000);
  double secs = num("--secs", 1e9), t0 = now();
  std::string out = a["--out"];
  volatile u64* cur = 0;
  if (!out.empty()) {
    int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 16) == 0) {
      void* m = mmap(0, 16, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (m != MAP_FAILED) cur = (volatile u64*)m;
    }
  }
  for (u64 i = first; i < first + count; ++i) {
    if ((i & 7) == 0 && now() - t0 > secs) break;
    if (cur) { cur[0] = i; cur[1] = 1; }
    Src s(seed, i, sizeFor(i));
    Case c = property().generate(s);
    Ctx ctx; std::string why;
    if (!guarded(c, ctx, why)) {
      printf("FAILED: %s\n", clip(why, 3000).c_str());
      fflush(stdout);
      if (!out.empty()) save(out + ".case", toText(c));
      _exit(3);
    }
    account(c, ctx);
  }
  if (cur) cur[1] = 2;
  itimerval z; memset(&z, 0, sizeof z); setitimer(ITIMER_PROF, &z, 0);
  if (!out.empty()) writeStats(out + ".stats");
  fflush(0);
  _exit(0);
}

} // namespace pbt

extern "C" int LLVMFuzzerInitialize(int*, char***) {
  pbt::processInit();
  atexit([] { if (const char* o = getenv("PBT_FUZZ_STATS")) pbt::writeStats(o); });
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
  pbt::Src s(d ? d : (const uint8_t*)"", n, 100);
  pbt::Case c = pbt::property().generate(s);
  pbt::Ctx ctx; std::string why;
  if (!pbt::guarded(c, ctx, why)) {
    fprintf(stderr, "FAILED: %s\n", pbt::clip(why, 3000).c_str());
    fflush(0);
    abort();
  }
  pbt::account(c, ctx);
  return 0;
}
