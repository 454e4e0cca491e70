// Operations with recognisable behaviour, for the command line tools.
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#define LONG32 "abcdefghijklmnopqrstuvwxyz_01234"
#define LONG_NAME LONG32 LONG32 LONG32 LONG32 LONG32 LONG32 LONG32 LONG32 LONG32
extern "C" {
char* longname_run(char* a) asm(LONG_NAME "_run");
uint64_t* longname_gas(char* a) asm(LONG_NAME "_gas");
char* longname_run(char* a) { return strdup((std::string("long ") + a).c_str()); }
uint64_t* longname_gas(char* a) { uint64_t* g = (uint64_t*)malloc(8); *g = 3 * strlen(a); return g; }
char* echo_run(char* a) { return strdup((std::string("<") + a + ">").c_str()); }
uint64_t* echo_gas(char* a) { uint64_t* g = (uint64_t*)malloc(8); *g = strlen(a); return g; }
char* none_run(char*) { return 0; }
uint64_t* none_gas(char*) { return 0; }
char* empty_run(char*) { return strdup(""); }
uint64_t* empty_gas(char*) { uint64_t* g = (uint64_t*)malloc(8); *g = 0; return g; }
char* big_run(char* a) { std::string s; size_t n = 1 + (strlen(a) < 3000 ? strlen(a) : 3000) * 700; while (s.size() < n) s += "line\n\x01\xff "; return strdup(s.c_str()); }
uint64_t* big_gas(char* a) { uint64_t* g = (uint64_t*)malloc(8); *g = ~0ull - strlen(a); return g; }
char* onlyrun_run(char* a) { return strdup(a); }
uint64_t* onlygas_gas(char* a) { uint64_t* g = (uint64_t*)malloc(8); *g = 1000003ull * (1 + strlen(a)); return g; }
}
