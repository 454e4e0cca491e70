// Preloaded: another time, another host, another user, and an answer to whatever the operations look for outside
// their arguments: variables that are not set and files that are not there.  Included with PBT_HERE, the same within
// the process, while pbt_inside says so.
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <initializer_list>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#ifndef PBT_HERE
#define MOVED true
#define HERE(b) false
#else
#define MOVED g_Inside
#define HERE(b) (b[0] == 'C' && b[1] >= '0' && b[1] <= '9')   // what is compiled into the checks themselves
#endif
namespace {
volatile int g_Inside;                                     // an operation is being invoked
int g_Writes;                                              // files opened to be written
bool ours(const void* at) { Dl_info i; if (!g_Inside || !dladdr(at, &i) || !i.dli_fname) return false; const char* b = strrchr(i.dli_fname, '/'); b = b ? b + 1 : i.dli_fname; return strstr(b, "eni") || strstr(b, "ownops") || HERE(b); }
bool invent(const char* p, int how) {
  if (!g_Inside || !p || (how & O_ACCMODE) != O_RDONLY || (how & O_CREAT)) return false;
  for (const char* x : {"/dev/", "/proc/", "/sys/", "ssl", "locale", "gconv", ".so", "LC_", "/usr/", "zoneinfo", "localtime"}) if (strstr(p, x)) return false;
  int e = errno; bool there = faccessat(AT_FDCWD, p, F_OK, 0) == 0; errno = e; return !there;
}
template<class F> F next(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
const char* real(const char* n) { static auto f = next<char* (*)(const char*)>("getenv"); return f(n); }
int invented() { int fd = memfd_create("pbt", 0); static const char* text = real("PBT_INVENT"); if (!text) text = "1\n1\n"; if (fd >= 0) { if (write(fd, text, strlen(text))) {} lseek(fd, 0, SEEK_SET); } return fd; }
}
extern "C" {
void pbt_inside(int on) { g_Inside = on; }
int pbt_isInside() { return g_Inside; }
int pbt_writes() { return g_Writes; }
int clock_gettime(clockid_t c, struct timespec* t) { static auto f = next<int (*)(clockid_t, struct timespec*)>("clock_gettime"); int r = f(c, t); if (MOVED && c != CLOCK_THREAD_CPUTIME_ID && c != CLOCK_PROCESS_CPUTIME_ID) { long n = t->tv_nsec + 123456789; t->tv_sec += 123456789 + n / 1000000000; t->tv_nsec = n % 1000000000; } return r; }
int gettimeofday(struct timeval* t, void*) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
time_t time(time_t* p) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
int gethostname(char* b, size_t n) { static auto f = next<int (*)(char*, size_t)>("gethostname"); if (!(MOVED)) return f(b, n); strncpy(b, "elsewhere", n); return 0; }
uid_t getuid() { static auto f = next<uid_t (*)()>("getuid"); return MOVED ? 4711 : f(); }
char* getenv(const char* n) { static auto f = next<char* (*)(const char*)>("getenv"); char* r = f(n); static char one[] = "1"; return r || !ours(__builtin_return_address(0)) ? r : one; }
char* secure_getenv(const char* n) { static auto f = next<char* (*)(const char*)>("secure_getenv"); char* r = f(n); static char one[] = "1"; return r || !ours(__builtin_return_address(0)) ? r : one; }
FILE* fopen(const char* p, const char* m) { static auto f = next<FILE* (*)(const char*, const char*)>("fopen"); if (m && *m != 'r') __atomic_fetch_add(&g_Writes, 1, __ATOMIC_RELAXED); if (m && *m == 'r' && invent(p, O_RDONLY)) { int fd = invented(); if (fd >= 0) return fdopen(fd, "r"); } return f(p, m); }
FILE* fopen64(const char* p, const char* m) { static auto f = next<FILE* (*)(const char*, const char*)>("fopen64"); if (m && *m != 'r') __atomic_fetch_add(&g_Writes, 1, __ATOMIC_RELAXED); if (m && *m == 'r' && invent(p, O_RDONLY)) { int fd = invented(); if (fd >= 0) return fdopen(fd, "r"); } return f(p, m); }
#define OPEN(NAME) int NAME(const char* p, int how, ...) { static auto f = next<int (*)(const char*, int, ...)>(#NAME); mode_t m = 0; if (how & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, how); m = va_arg(a, mode_t); va_end(a); } if ((how & O_ACCMODE) != O_RDONLY || (how & O_CREAT)) __atomic_fetch_add(&g_Writes, 1, __ATOMIC_RELAXED); if (invent(p, how)) { int fd = invented(); if (fd >= 0) return fd; } return f(p, how, m); }
OPEN(open)
OPEN(open64)
int access(const char* p, int how) { static auto f = next<int (*)(const char*, int)>("access"); return invent(p, O_RDONLY) ? 0 : f(p, how); }
}
