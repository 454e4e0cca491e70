// RSA keys made from a fixed pseudo random stream, and their texts.
#pragma once
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/rsa.h>
#include "big_keys.hpp"
#include "pbt.hpp"

namespace keys {
using pbt::u64;
struct Key {
  int bits = 0;
  BIGNUM *n = 0, *e = 0, *d = 0, *p = 0, *q = 0, *dp = 0, *dq = 0, *qi = 0;
  std::string pub, priv, priv8, pkcs1pub, privDer, pubDer;
  size_t size() const { return (size_t)(BN_num_bits(n) + 7) / 8; }
};
inline std::string take(BIO* b) { char* p; long l = BIO_get_mem_data(b, &p); std::string s(p, l); BIO_free(b); return s; }
inline std::string b64(const std::string& d) {
  std::vector<unsigned char> o(d.size() * 4 / 3 + 8); int n = EVP_EncodeBlock(o.data(), (const unsigned char*)d.data(), (int)d.size());
  std::string s((char*)o.data(), n), r; for (size_t i = 0; i < s.size(); i += 64) r += s.substr(i, 64) + "\n"; return r;
}
inline std::string pem(const char* what, const std::string& der) { return std::string("-----BEGIN ") + what + "-----\n" + b64(der) + "-----END " + what + "-----\n"; }
template<class F> std::string der(F f, RSA* k) { unsigned char* o = 0; int n = f(k, &o); std::string s; if (n > 0) s.assign((char*)o, n); OPENSSL_free(o); return s; }

inline RSA* toRsa(const Key& k, bool priv) {
  RSA* r = RSA_new();
  RSA_set0_key(r, BN_dup(k.n), BN_dup(k.e), priv ? BN_dup(k.d) : 0);
  if (priv) { RSA_set0_factors(r, BN_dup(k.p), BN_dup(k.q)); RSA_set0_crt_params(r, BN_dup(k.dp), BN_dup(k.dq), BN_dup(k.qi)); }
  return r;
}
inline void write(Key& k) {
  RSA* r = toRsa(k, true);
  BIO* b = BIO_new(BIO_s_mem()); PEM_write_bio_RSA_PUBKEY(b, r); k.pub = take(b);
  b = BIO_new(BIO_s_mem()); PEM_write_bio_RSAPublicKey(b, r); k.pkcs1pub = take(b);
  k.privDer = der(i2d_RSAPrivateKey, r); k.pubDer = der(i2d_RSA_PUBKEY, r);
  k.priv = pem("RSA PRIVATE KEY", k.privDer);
  EVP_PKEY* e = EVP_PKEY_new(); EVP_PKEY_set1_RSA(e, r);
  b = BIO_new(BIO_s_mem()); PEM_write_bio_PKCS8PrivateKey(b, e, 0, 0, 0, 0, 0); k.priv8 = take(b);
  EVP_PKEY_free(e); RSA_free(r);
}
inline BIGNUM* prime(u64& st, int bits, const BIGNUM* e, BN_CTX* cx) {
  std::vector<unsigned char> b((bits + 7) / 8);
  for (;;) {
    for (auto& x : b) { st = pbt::mix(st); x = (unsigned char)st; }
    BIGNUM* p = BN_bin2bn(b.data(), (int)b.size(), 0);
    BN_mask_bits(p, bits); BN_set_bit(p, bits - 1); BN_set_bit(p, bits - 2); BN_set_bit(p, 0);
    BIGNUM *g = BN_new(), *m = BN_dup(p);
    for (int k = 0; k < 200 && BN_num_bits(p) == bits; ++k, BN_add_word(p, 2)) {
      if (BN_check_prime(p, cx, 0) != 1) continue;
      BN_copy(m, p); BN_sub_word(m, 1); BN_gcd(g, m, e, cx);
      if (BN_is_one(g)) { BN_free(g); BN_free(m); return p; }
    }
    BN_free(g); BN_free(m); BN_free(p);
  }
}
inline Key make(u64 seed, int bits, unsigned long e) {
  Key k; u64 st = seed; BN_CTX* cx = BN_CTX_new();
  k.e = BN_new(); BN_set_word(k.e, e);
  k.n = BN_new();
  do {
    BN_free(k.p); BN_free(k.q);
    k.p = prime(st, (bits + 1) / 2, k.e, cx); k.q = prime(st, bits - (bits + 1) / 2, k.e, cx);
    if (BN_cmp(k.p, k.q) < 0) std::swap(k.p, k.q);
    BN_mul(k.n, k.p, k.q, cx);
  } while (BN_cmp(k.p, k.q) == 0);
  BIGNUM *p1 = BN_dup(k.p), *q1 = BN_dup(k.q), *phi = BN_new();
  BN_sub_word(p1, 1); BN_sub_word(q1, 1); BN_mul(phi, p1, q1, cx);
  k.d = BN_mod_inverse(0, k.e, phi, cx);
  k.dp = BN_new(); k.dq = BN_new(); BN_mod(k.dp, k.d, p1, cx); BN_mod(k.dq, k.d, q1, cx);
  k.qi = BN_mod_inverse(0, k.q, k.p, cx);
  k.bits = BN_num_bits(k.n);
  BN_free(p1); BN_free(q1); BN_free(phi); BN_CTX_free(cx);
  write(k); return k;
}
// larger ones, written down because making them takes long
inline const std::vector<Key>& bigPool() {
  static const std::vector<Key> v = [] {
    std::vector<Key> r;
    for (auto& t : bigTexts) {
      std::string b = t.text; std::vector<unsigned char> d(b.size());
      int n = EVP_DecodeBlock(d.data(), (const unsigned char*)b.data(), (int)b.size());
      while (n > 0 && !b.empty() && b.back() == '=') { b.pop_back(); --n; }
      const unsigned char* at = d.data(); RSA* k = d2i_RSAPrivateKey(0, &at, n);
      if (!k) abort();
      Key x; const BIGNUM *a, *c, *e;
      RSA_get0_key(k, &a, &c, &e); x.n = BN_dup(a); x.e = BN_dup(c); x.d = BN_dup(e);
      RSA_get0_factors(k, &a, &c); x.p = BN_dup(a); x.q = BN_dup(c);
      RSA_get0_crt_params(k, &a, &c, &e); x.dp = BN_dup(a); x.dq = BN_dup(c); x.qi = BN_dup(e);
      RSA_free(k); x.bits = BN_num_bits(x.n); write(x); r.push_back(x);
    }
    return r;
  }();
  return v;
}
// sizes that are and are not multiples of 8, small and usual, with several exponents
inline const std::vector<Key>& pool() {
  static const std::vector<Key> v = [] {
    bigPool();
    std::vector<Key> r;
    struct { int bits; unsigned long e; } spec[] = {{512, 65537}, {512, 3}, {520, 17}, {511, 65537}, {513, 5}, {64, 65537}, {96, 3}, {129, 257},
      {768, 65537}, {1023, 65537}, {1024, 3}, {1024, 65537}, {2048, 65537}, {255, 4294967297ul}};
    u64 i = 0; for (auto& s : spec) r.push_back(make(++i * 7919, s.bits, s.e));
    return r;
  }();
  return v;
}
// modular exponentiation, as the textbook has it
inline std::string modexp(const std::string& m, const BIGNUM* e, const BIGNUM* n, size_t size) {
  BN_CTX* cx = BN_CTX_new(); BIGNUM *x = BN_bin2bn((const unsigned char*)m.data(), (int)m.size(), 0), *r = BN_new();
  BN_mod_exp_simple(r, x, e, n, cx);
  std::string o(size, '\0'); BN_bn2binpad(r, (unsigned char*)&o[0], (int)size);
  BN_free(x); BN_free(r); BN_CTX_free(cx); return o;
}
inline bool below(const std::string& m, const BIGNUM* n) { BIGNUM* x = BN_bin2bn((const unsigned char*)m.data(), (int)m.size(), 0); bool b = BN_cmp(x, n) < 0; BN_free(x); return b; }
inline std::string bytes(const BIGNUM* n) { std::string o(BN_num_bytes(n), '\0'); BN_bn2bin(n, (unsigned char*)&o[0]); return o; }
inline std::string hex(const std::string& s) { std::string o; for (unsigned char c : s) { o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; } return o; }
inline std::string strip(std::string s) { while (!s.empty() && s.back() == '\0') s.pop_back(); return s; }
} // namespace keys
