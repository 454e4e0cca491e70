// libcrypto is not instrumented: the buffers it is given are checked here, at the calls the code under test makes.
#pragma once
#include <dlfcn.h>
#include <openssl/bio.h>
#include <openssl/rsa.h>
#include <openssl/sha.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
extern "C" __attribute__((weak)) void* __asan_region_is_poisoned(void*, size_t); // absent without the sanitizer
namespace guard {
inline void region(const char* f, const char* what, const void* p, size_t n) {
  if (n == 0 || !__asan_region_is_poisoned || !__asan_region_is_poisoned((void*)p, n)) return;
  fprintf(stderr, "FAILED: %s is given %zu bytes of %s that are not all its own\n", f, n, what);
  abort();
}
template<class F> F real(const char* name) { return (F)dlsym(RTLD_NEXT, name); }
} // namespace guard
#define GUARD_RSA(name) extern "C" int name(int n, const unsigned char* from, unsigned char* to, RSA* k, int pad) { \
  static auto f = guard::real<int (*)(int, const unsigned char*, unsigned char*, RSA*, int)>(#name); \
  if (n > 0) guard::region(#name, "input", from, n); \
  guard::region(#name, "output", to, RSA_size(k)); \
  return f(n, from, to, k, pad); }
GUARD_RSA(RSA_public_encrypt)
GUARD_RSA(RSA_private_encrypt)
GUARD_RSA(RSA_public_decrypt)
GUARD_RSA(RSA_private_decrypt)
extern "C" int SHA256_Update(SHA256_CTX* c, const void* d, size_t n) {
  static auto f = guard::real<int (*)(SHA256_CTX*, const void*, size_t)>("SHA256_Update");
  guard::region("SHA256_Update", "context", c, sizeof *c); guard::region("SHA256_Update", "input", d, n);
  return f(c, d, n);
}
extern "C" int SHA256_Final(unsigned char* md, SHA256_CTX* c) {
  static auto f = guard::real<int (*)(unsigned char*, SHA256_CTX*)>("SHA256_Final");
  guard::region("SHA256_Final", "context", c, sizeof *c); guard::region("SHA256_Final", "output", md, 32);
  return f(md, c);
}
extern "C" BIO* BIO_new_mem_buf(const void* p, int n) {
  static auto f = guard::real<BIO* (*)(const void*, int)>("BIO_new_mem_buf");
  if (p) guard::region("BIO_new_mem_buf", "text", p, n < 0 ? strlen((const char*)p) + 1 : (size_t)n);
  return f(p, n);
}
