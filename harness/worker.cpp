// Invokes operations on request: reads calls from descriptor 3, writes outcomes to 4.
// worker CRYPTO SCRYPT REVERSE JSON LOCALE OWN
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <locale>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <clocale>
#include <vector>
#include <alloca.h>
#include <cerrno>
#include <pthread.h>
#include <sys/resource.h>
typedef char* (*Run)(char*); typedef uint64_t* (*Gas)(char*);
static void all(int fd, void* p, size_t n, bool wr) { char* c = (char*)p; while (n) { ssize_t r = wr ? write(fd, c, n) : read(fd, c, n); if (r <= 0) _exit(0); c += r; n -= r; } }
static std::string get() { uint32_t n; all(3, &n, 4, false); std::string s(n, 0); all(3, &s[0], n, false); return s; }
struct Reply { std::string kind; uint64_t gas = 0; bool has = false; std::string text; };
static std::string pack(const Reply& r) { return r.kind + "|" + std::to_string((unsigned long long)r.gas) + "|" + (r.has ? "+" + r.text : "-"); }
static void __attribute__((noinline)) dirty(int v, size_t n) { volatile char* p = (volatile char*)alloca(n); for (size_t i = 0; i < n; ++i) p[i] = (char)v; }
static void (*g_Inside)(int);                                // of the preloaded library, where it is
static Reply invoke1(Run rf, Gas gf, const std::string& text, unsigned flags) {
  Reply o; o.kind = "done";
  std::vector<char*> junk;
  if (flags & 8) for (int i = 0; i < 200; ++i) { size_t n = 16 + i * 13 % 600; char* p = (char*)malloc(n); memset(p, flags >> 4 & 255, n); junk.push_back(p); }
  for (size_t i = 0; i < junk.size(); i += 2) { free(junk[i]); junk[i] = 0; }
  // the text stands at different places, followed by different bytes
  size_t off = flags >> 12 & 15; std::vector<char> b(off + text.size() + 40, "]}\"1a \\x"[flags >> 16 & 7]); memcpy(b.data() + off, text.data(), text.size()); b[off + text.size()] = 0;
  char* a = b.data() + off;
  auto gas = [&] { dirty(flags >> 4 & 255, 200000); uint64_t* g = gf(a); if (g) o.gas = *g; else o.kind = "no gas"; free(g); };
  auto run = [&] { dirty(~(flags >> 4) & 255, 200000); char* r = rf(a); o.has = r != 0; o.text = r ? r : ""; free(r); };
  if (flags & 1) { run(); gas(); } else { gas(); run(); }
  if (flags & 2) { Reply first = o; run(); gas(); if (pack(first) != pack(o)) o.kind = "differs the second time from " + pack(first); }
  for (char* p : junk) free(p);
  return o;
}
struct Asked { Run rf; Gas gf; const std::string* text; unsigned flags; Reply r; };
static Reply invoke(Run rf, Gas gf, const std::string& text, unsigned flags) {
  Asked a = {rf, gf, &text, flags, {}};
  auto f = [](void* p) -> void* {
    Asked& q = *(Asked*)p;
    srand(q.flags >> 4 & 255); srandom(q.flags >> 4 & 255); errno = (int)(q.flags >> 4 & 127);
    if (g_Inside) g_Inside(1);
    q.r = invoke1(q.rf, q.gf, *q.text, q.flags);
    if (g_Inside) g_Inside(0);
    return 0;
  };
  if (flags >> 19 & 1) {                                     // on a thread of its own
    pthread_attr_t at; pthread_attr_init(&at); rlimit l; size_t st = getrlimit(RLIMIT_STACK, &l) || l.rlim_cur == RLIM_INFINITY || l.rlim_cur < (8u << 20) ? 8u << 20 : l.rlim_cur;
    pthread_attr_setstacksize(&at, st); pthread_t t;
    if (!pthread_create(&t, &at, f, &a)) { pthread_join(t, 0); pthread_attr_destroy(&at); return a.r; }
    pthread_attr_destroy(&at);
  }
  f(&a); return a.r;
}
struct Grouping : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } char do_decimal_point() const override { return ','; } std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "wahr"; } std::string do_falsename() const override { return "falsch"; } };
int main(int argc, char** argv) {
  if (argc < 7) return 2;
  g_Inside = (void (*)(int))dlsym(RTLD_DEFAULT, "pbt_inside");
  void* h[5]; for (int i = 0; i < 5; ++i) if (!(h[i] = dlopen(argv[i < 4 ? 1 + i : 6], RTLD_NOW))) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  if (!strcmp(argv[5], "locale")) { setlocale(LC_ALL, ""); std::locale::global(std::locale(std::locale(), new Grouping)); }
  for (;;) {
    uint32_t flags; all(3, &flags, 4, false);
    std::string op = get(), text = get();
    Run rf = 0; Gas gf = 0;
    for (void* x : h) { if (!rf) rf = (Run)dlsym(x, (op + "_run").c_str()); if (!gf) gf = (Gas)dlsym(x, (op + "_gas").c_str()); }
    std::string out;
    if (!rf || !gf) out = "no such operation";
    else if (flags & 4) {         // the call may end the process
      int p[2]; if (pipe(p)) return 2;
      pid_t pid = fork();
      if (!pid) { Reply r = invoke(rf, gf, text, flags); std::string s = pack(r); uint32_t n = s.size(); all(p[1], &s[0], n, true); _exit(0); }
      close(p[1]); char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) out.append(b, n); close(p[0]);
      int st; waitpid(pid, &st, 0); out += WIFEXITED(st) ? "|exit " + std::to_string(WEXITSTATUS(st)) : "|signal";
    } else out = pack(invoke(rf, gf, text, flags));
    uint32_t n = out.size(); all(4, &n, 4, true); all(4, &out[0], n, true);
  }
}
