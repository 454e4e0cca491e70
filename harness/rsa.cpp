// C13: the RSA operations against textbook RSA; C14: the hex codec.
#include <algorithm>
#include <eni_crypto/eni_crypto.h>
#include "json_eni.hpp"
#include "rsa_keys.hpp"
#include "crypto_guard.hpp"

using namespace pbt;
extern "C" { char* rsa_encrypt_run(char*); char* rsa_decrypt_run(char*); uint64_t* rsa_encrypt_gas(char*); uint64_t* rsa_decrypt_gas(char*); }
namespace {
#if defined(PROP_C13)
// what the operation returns; false: no result
bool call(char* (*f)(char*), const std::string& key, const std::string& msg, std::string& out, Src* ws) {
  std::string t = "[" + jref::writeStr(ws, key, false) + "," + jref::writeStr(ws, msg, false) + "]";
  char* r = f(&t[0]);
  if (!r) return false;
  std::string s(r); free(r);
  jref::V v; PBT_CHECK(jref::readStrict(s, v) && v.kind == jref::Arr && v.a.size() == 1 && v.a[0].kind == jref::Str, "the result is not an array of one string: " << jcmp::show(s));
  out = v.a[0].s; return true;
}
std::string message(const Op& o, const keys::Key& k) {
  size_t size = k.size();
  std::string m = o.str(0), n = keys::bytes(k.n);
  switch ((u64)o.num(2) % 8) {
    case 0: return m;
    case 1: m.resize(std::min(m.size(), size)); return m;
    case 2: m.resize(size, 'x'); m[0] = 0; return m;                      // full length, below the modulus
    case 3: { BIGNUM* b = BN_dup(k.n); if (o.num(3) & 1) BN_add_word(b, (u64)o.num(3) % 7); else BN_sub_word(b, (u64)o.num(3) % 7); m = keys::bytes(b); BN_free(b); m.insert(0, n.size() - std::min(n.size(), m.size()), '\0'); return m; }
    case 4: m.insert(0, (size_t)((u64)o.num(3) % (size + 1)), '\0'); return m;
    case 5: m.append((size_t)((u64)o.num(3) % (size + 1)), '\0'); return m;
    case 6: m.resize(size + (u64)o.num(3) % 3, '\xff'); return m;
    default: m.resize(size - std::min<size_t>(size, (u64)o.num(3) % 4), 'q'); if (!m.empty() && (o.num(3) & 4)) m[0] = 1; return m;
  }
}
void check(const Case& c, Ctx& ctx) {
  const auto& pool = keys::pool();
  for (const Op& o : c) {
    const bool big = o.num(4) > 0;
    const keys::Key& k = big ? keys::bigPool()[(u64)o.num(4) % keys::bigPool().size()] : pool[(u64)o.num(0) % pool.size()];
    size_t size = k.size();
    Src ws(1, (u64)o.num(3), 4);
    std::string m = message(o, k), padded = m; if (m.size() <= size) padded.resize(size, '\0');
    bool ok = m.size() <= size && keys::below(padded, k.n);
    RSA* pub = eni_crypto::rsa::create_pubkey(k.pub); RSA* prv = eni_crypto::rsa::create_privkey((o.num(1) & 1) ? k.priv : k.priv8);
    struct Free { RSA*& a; RSA*& b; ~Free() { eni_crypto::rsa::destroy(a); eni_crypto::rsa::destroy(b); } } fr{pub, prv};
    PBT_CHECK(pub && prv, "a key of " << k.bits << " bits is not read");
    std::string got;
    switch ((u64)o.num(1) / 2 % 3) {
      case 0: { // through the operations
        bool r = call(rsa_encrypt_run, k.pub, m, got, &ws);
        PBT_CHECK(r == ok, "encrypting " << m.size() << " bytes with " << k.bits << " bits " << (r ? "gives a result" : "gives no result") << ": " << jcmp::show(m));
        if (!ok) { ctx.label("refused message"); break; }
        std::string want = keys::hex(keys::modexp(padded, k.e, k.n, size));
        PBT_CHECK(got == want, "encrypting " << jcmp::show(m) << " gives " << got << " instead of " << want);
        std::string cipher = got; if (o.num(3) & 8) for (char& ch : cipher) ch = (char)toupper(ch);
        PBT_CHECK(call(rsa_decrypt_run, (o.num(1) & 1) ? k.priv : k.priv8, cipher, got, &ws), "the ciphertext of " << jcmp::show(m) << " cannot be decrypted");
        PBT_CHECK(got == keys::strip(m), "decrypting gives " << jcmp::show(got) << " instead of " << jcmp::show(m));
        ctx.label("public then private");
        break;
      }
      case 1: { // through the functions, either half first
        bool first = o.num(3) & 1; std::string want, back;
        bool r = first ? eni_crypto::rsa::pub_encrypt(*pub, m, got) : eni_crypto::rsa::priv_encrypt(*prv, m, got);
        PBT_CHECK(r == ok, "encrypting " << m.size() << " bytes with " << k.bits << " bits " << (r ? "succeeds" : "fails") << ": " << jcmp::show(m));
        if (!ok) { ctx.label("refused message"); break; }
        want = keys::modexp(padded, first ? k.e : k.d, k.n, size);
        PBT_CHECK(got == want, "encrypting " << jcmp::show(m) << " gives " << keys::hex(got) << " instead of " << keys::hex(want));
        r = first ? eni_crypto::rsa::priv_decrypt(*prv, got, back) : eni_crypto::rsa::pub_decrypt(*pub, got, back);
        PBT_CHECK(r && back == keys::strip(m), "decrypting " << keys::hex(got) << " gives " << jcmp::show(back) << " instead of " << jcmp::show(m));
        std::string self = m;                     // in place
        PBT_CHECK((first ? eni_crypto::rsa::pub_encrypt(*pub, self, self) : eni_crypto::rsa::priv_encrypt(*prv, self, self)) && self == want, "encrypting " << jcmp::show(m) << " in place gives " << keys::hex(self));
        PBT_CHECK((first ? eni_crypto::rsa::priv_decrypt(*prv, self, self) : eni_crypto::rsa::pub_decrypt(*pub, self, self)) && self == keys::strip(m), "decrypting " << keys::hex(want) << " in place gives " << jcmp::show(self));
        ctx.label(first ? "public then private" : "private then public");
        break;
      }
      default: { // any text as ciphertext of the full size or another
        std::string ct = m; if (o.num(3) & 1) ct.resize(size, 'c');
        bool full = ct.size() <= size && keys::below(ct, k.n);   // a shorter one is the same number without its leading zeros
        bool r = call(rsa_decrypt_run, (o.num(1) & 1) ? k.priv : k.priv8, keys::hex(ct), got, &ws);
        std::string got2; bool r2 = eni_crypto::rsa::pub_decrypt(*pub, ct, got2);
        if (ct.empty()) {}                    // left open
        else if (full) {
          PBT_CHECK(r && got == keys::strip(keys::modexp(ct, k.d, k.n, size)), "decrypting " << keys::hex(ct) << " gives " << (r ? jcmp::show(got) : "nothing"));
          PBT_CHECK(r2 && got2 == keys::strip(keys::modexp(ct, k.e, k.n, size)), "the public decryption of " << keys::hex(ct) << " gives " << (r2 ? jcmp::show(got2) : "nothing"));
          ctx.label("any ciphertext");
        } else { PBT_CHECK(!r && !r2, "a ciphertext out of range is decrypted: " << keys::hex(ct)); ctx.label("refused ciphertext"); }
        // the wrong half, and things that are no keys
        if (o.num(3) % 5 == 0) {
          PBT_CHECK(!call(rsa_decrypt_run, k.pub, keys::hex(ct), got, &ws), "a public key decrypts");
          PBT_CHECK(!call(rsa_encrypt_run, k.priv, m, got, &ws), "a private key encrypts");
          PBT_CHECK(!call(rsa_encrypt_run, o.str(0), m, got, &ws) && !call(rsa_decrypt_run, o.str(0), "", got, &ws), "a text that is no key works");
          std::string cut = k.pub.substr(0, (u64)o.num(3) % (k.pub.size() - 30));
          PBT_CHECK(!call(rsa_encrypt_run, cut, m, got, &ws), "a truncated key encrypts");
          ctx.label("no key");
        }
      }
    }
    if (!m.empty()) ctx.nontrivial = true;
    if (k.bits % 8) ctx.label("odd modulus size");
    if (big) ctx.label("more than 2048 bits");
  }
}
Case gen(Src& s) {
  Op o("rsa"); std::string m;
  size_t n = s.p(50) ? s.below(40) : s.below(260); int style = (int)s.below(4);
  for (size_t i = 0; i < n; ++i) m += style == 0 ? (char)('a' + s.below(26)) : style == 1 ? (char)0 : (char)s.below(256);
  if (style == 1 && n) m[s.below(n)] = (char)s.below(256);
  o.s = {m};
  size_t keysN = keys::pool().size();
  i64 key = (i64)s.below(keysN); if (keys::pool()[key].bits > 1100 && s.p(80)) key = (i64)s.below(8);
  o.n = {key, (i64)s.below(6), (i64)s.below(8), (i64)s.below(1 << 20)};
  if (!s.fromFuzzer() && s.below(60) == 0) {
    i64 b = 1 + (i64)s.below(40); if (b % 5 == 4 && s.p(80)) --b;   // the largest seldom
    o.n.push_back(b);
    size_t len = s.p(40) ? 0 : keys::bigPool()[b % 5].size() - s.below(3);   // as long as the modulus, beginning below it
    if (len) { o.s[0].resize(len, 'm'); o.s[0][0] = (char)s.below(128); }
  }
  return Case{o};
}
const Property P = {"C13", "messages and ciphertexts of every length and shape (around the modulus, leading and trailing zeros, too long) with keys of 64 to 8192 bits, odd sizes and several exponents, through the operations and "
  "the functions, either half first, against modular exponentiation with BIGNUM; wrong halves and texts that are no keys; non-trivial: a non-empty message", gen, check, [] { std::cerr.rdbuf(0); keys::pool(); }};

#else
void check(const Case& c, Ctx& ctx) {
  for (const Op& o : c) {
    const std::string& s = o.str(0); std::string out = o.str(1), back = o.str(1);
    if (o.k == "bytes") {
      PBT_CHECK(eni_crypto::str2hex(s, out), "encoding fails");
      PBT_CHECK(out == keys::hex(s), "encoding " << jcmp::show(s) << " gives " << jcmp::show(out));
      PBT_CHECK(eni_crypto::hex2str(out, back) && back == s, "decoding " << out << " gives " << jcmp::show(back));
      std::string mixed = out; for (size_t i = 0; i < mixed.size(); ++i) if (mix(i + (u64)o.num(0)) & 1) mixed[i] = (char)toupper(mixed[i]);
      PBT_CHECK(eni_crypto::hex2str(mixed, back) && back == s, "decoding " << mixed << " gives " << jcmp::show(back));
      back = s; PBT_CHECK(eni_crypto::str2hex(back, back) && back == out, "encoding " << jcmp::show(s) << " in place gives " << jcmp::show(back));
      PBT_CHECK(eni_crypto::hex2str(mixed, mixed) && mixed == s, "decoding " << out << " in place gives " << jcmp::show(mixed));
      if (!s.empty()) ctx.nontrivial = true;
    } else {
      bool ok = s.size() % 2 == 0; std::string want;
      for (char ch : s) if (!((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F'))) ok = false;
      auto d = [](char h) { return h <= '9' ? h - '0' : (h | 32) - 'a' + 10; };
      if (ok) for (size_t i = 0; i < s.size(); i += 2) want += (char)(d(s[i]) * 16 + d(s[i + 1]));
      bool r = eni_crypto::hex2str(s, out);
      PBT_CHECK(r == ok, jcmp::show(s) << (r ? " is decoded" : " is refused"));
      if (ok) PBT_CHECK(out == want, "decoding " << jcmp::show(s) << " gives " << jcmp::show(out));
      ctx.label(ok ? "valid text" : "invalid text");
      if (!s.empty()) ctx.nontrivial = true;
    }
  }
}
Case gen(Src& s) {
  Op o(s.p(50) ? "bytes" : "text", {(i64)s.below(1 << 20)});
  std::string t; size_t n = s.len(s.rare(2) ? 5000 : 100);
  if (!s.fromFuzzer() && s.below(3000) == 0) n = s.p(50) ? 65530 + s.below(12) : s.p(50) ? 131060 + s.below(24) : s.below(300000);
  if (o.k == "bytes") { bool high = s.p(30); for (size_t i = 0; i < n; ++i) t += (char)(high ? 0x78 + s.below(0x90) : s.below(256)); }
  else {
    for (size_t i = 0; i < n; ++i) t += "0123456789abcdefABCDEF"[s.below(22)];
    size_t bad = s.p(50) ? 0 : 1 + s.below(2);
    static const char edge[] = "/:@GKZ`gkz \n\0\xff\x80-+xX.";
    while (bad-- && n) t[s.below(n)] = s.p(70) ? edge[s.below(sizeof edge - 1)] : (char)s.below(256);
    if (s.rare(40) && t.size() % 2) t.pop_back();
  }
  o.s = {t, s.p(50) ? "" : "old"};
  return Case{o};
}
const Property P = {"C14", "byte strings encoded and decoded back in mixed case, and texts of hex digits with and without a foreign character or an odd length, against a table; non-trivial: not empty", gen, check, nullptr};
#endif
} // namespace
const Property& pbt::property() { return P; }
