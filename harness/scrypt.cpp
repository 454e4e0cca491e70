// C15: the scrypt operation and its key derivation against OpenSSL's.
#include <eni_scrypt/eni_scrypt.h>
#include <eni_scrypt/scrypt.h>
#include <openssl/evp.h>
#include "json_eni.hpp"
#include "crypto_guard.hpp"

using namespace pbt;
extern "C" { char* scrypt_run(char*); uint64_t* scrypt_gas(char*); }
namespace {
std::string hex(const std::string& s) { std::string o; for (unsigned char c : s) { o += "0123456789abcdef"[c >> 4]; o += "0123456789abcdef"[c & 15]; } return o; }
std::string reference(std::string in) {
  in.resize(80, '\0'); unsigned char out[32];
  if (EVP_PBE_scrypt(in.data(), 80, (const unsigned char*)in.data(), 80, 1024, 1, 1, 64u << 20, out, 32) != 1) fail("the reference scrypt fails");
  return std::string((char*)out, 32);
}
int dig(char h) { return h <= '9' ? h - '0' : (h | 32) - 'a' + 10; }
void check(const Case& c, Ctx& ctx) {
  for (const Op& o : c) {
    if (o.k == "op") {
      const std::string& s = o.str(0);
      bool ok = s.size() <= 160;
      for (char ch : s) if (!((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F'))) ok = false;
      std::string want;
      if (ok) { std::string t = (s.size() & 1 ? "0" : "") + s, in; for (size_t i = 0; i < t.size(); i += 2) in += (char)(dig(t[i]) * 16 + dig(t[i + 1])); want = hex(reference(in)); }
      Src ws(1, (u64)o.num(0), 4);
      std::string text = "[" + jref::writeStr(&ws, s, false) + (o.num(0) & 1 ? ",\"x\"]" : "]");
      auto test = [&](char* r, const char* how) {
        std::string t = r ? r : ""; bool got = r != 0; free(r);
        PBT_CHECK(got == ok, how << ": " << jcmp::show(s) << (got ? " gives a result" : " is rejected"));
        if (!ok) return;
        jref::V v; PBT_CHECK(jref::readStrict(t, v) && v.kind == jref::Arr && v.a.size() == 1 && v.a[0].kind == jref::Str, how << ": the result is not an array of one string: " << jcmp::show(t));
        PBT_CHECK(v.a[0].s == want, how << ": scrypt of " << s << " is " << v.a[0].s << " instead of " << want);
      };
      std::string buf = text; test(scrypt_run(&buf[0]), "operation");
      if (o.num(0) & 2) { Scrypt x(text); if (o.num(0) & 4) x.getGas(); test(x.start(), "first start"); x.getGas(); test(x.start(), "second start"); ctx.label("started twice"); }
      if (ok && s.size() > 1) ctx.nontrivial = true;
      ctx.label(!ok ? "rejected" : s.size() & 1 ? "odd string" : "even string");
      if (ok && s.size() > 128) ctx.label("longer than 64 bytes");
    } else if (o.k == "core") {
      std::string in = o.str(0); in.resize(80, (char)o.num(1));
      std::vector<char> pad(SCRYPT_SCRATCHPAD_SIZE), src(in.begin(), in.end()), out(32);   // exact sizes
      // the scratch memory may hold anything before
      memset(pad.data(), (int)o.num(0), pad.size());
      if (o.num(2) & 1) scrypt_1024_1_1_256_sp_generic(src.data(), out.data(), pad.data()); else scrypt_1024_1_1_256(src.data(), out.data());
      PBT_CHECK(std::string(out.begin(), out.end()) == reference(in), "scrypt of " << hex(in) << " is " << hex(std::string(out.begin(), out.end())));
      PBT_CHECK(std::string(src.begin(), src.end()) == in, "the input is changed");
      ctx.nontrivial = true; ctx.label("core");
    } else {
      const std::string &p = o.str(0), &q = o.str(1); u64 n = 1 + (u64)o.num(0) % 70000; size_t len = 1 + (size_t)((u64)o.num(1) % 2200000);
      if (n > 40 && len > 256) len = 256;
      std::vector<uint8_t> buf(len), want(len), pw(p.begin(), p.end()), salt(q.begin(), q.end());
      PKCS5_PBKDF2_HMAC(p.data(), (int)p.size(), (const unsigned char*)q.data(), (int)q.size(), (int)n, EVP_sha256(), (int)len, want.data());
      PBKDF2_SHA256(pw.data(), pw.size(), salt.data(), salt.size(), n, buf.data(), len);
      PBT_CHECK(buf == want, "PBKDF2 of a password of " << p.size() << " bytes, a salt of " << q.size() << ", " << n << " iterations, " << len << " bytes is wrong");
      ctx.nontrivial = true; ctx.label("key derivation");
      if (p.size() > 64) ctx.label("long password"); if (n > 1) ctx.label("several iterations"); if (len > 255 * 32) ctx.label("more than 255 blocks");
      if (n > 255) ctx.label("more than 255 iterations"); if (p.size() > 255 || q.size() > 255) ctx.label("password or salt of more than 255 bytes");
    }
  }
}
Case gen(Src& s) {
  auto bytes = [&](size_t n) { std::string t; int style = (int)s.below(5); if (style == 4) { t.assign(n, "\0\0\xff\x36\x5c\x01"[s.below(6)]); if (n && s.p(40)) t[s.p(50) ? n - 1 : s.below(n)] ^= 1; return t; } for (size_t i = 0; i < n; ++i) t += style == 0 ? (char)('a' + s.below(26)) : style == 1 ? (char)(128 + s.below(128)) : (char)s.below(256); return t; };
  switch (s.weighted({6, 2, 4})) {
    case 0: {
      Op o("op", {(i64)s.below(8)}); std::string t; static const std::vector<i64> edge = {0, 1, 2, 126, 127, 128, 129, 130, 158, 159, 160, 161, 162};
      size_t n = s.p(40) ? (size_t)s.pick(edge) : (size_t)s.below(170); bool high = s.p(30);
      for (size_t i = 0; i < n; ++i) t += high ? "89abcdefABCDEF"[s.below(14)] : "0123456789abcdefABCDEF"[s.below(22)];
      if (s.p(12) && n) { t.assign(n, "00fF18"[s.below(6)]); if (s.p(40)) t[s.p(50) ? n - 1 : s.below(n)] = "0f1A"[s.below(4)]; }   // all alike, but for one
      if (s.rare(15) && n) t[s.below(n)] = s.p(60) ? "/:@GZ`gz \0\xff\xb0"[s.below(12)] : (char)s.below(256);
      o.s = {t}; return Case{o};
    }
    case 1: return Case{Op("core", {(i64)s.below(256), (i64)s.below(256), (i64)s.below(2)}, {bytes(s.below(81))})};
    default: {
      static const std::vector<i64> edge = {0, 1, 31, 32, 33, 63, 64, 65, 80, 128};
      auto len = [&] { return s.p(50) ? (size_t)s.pick(edge) : (size_t)s.below(200); };
      size_t a = len(), b = len();
      bool longer = s.rare(12);   // past 255 blocks, where the block number takes a second byte
      if (!s.fromFuzzer() && s.below(100) == 0) {   // numbers that take another byte
        if (s.p(40)) (s.p(50) ? a : b) = s.p(75) ? 200 + s.below(900) : 65400 + s.below(300);
        i64 n = s.p(40) ? (s.p(95) ? 250 + (i64)s.below(800) : 65530 + (i64)s.below(12)) : (i64)s.below(3), l = (i64)s.below(100);
        if (n < 3 && s.p(4)) l = 65534 * 32 + (i64)s.below(200);
        return Case{Op("pbkdf2", {n, l}, {bytes(a), bytes(b)})};
      }
      return Case{Op("pbkdf2", {longer || s.p(50) ? 0 : (i64)s.below(40), longer ? (i64)(7900 + s.below(2000)) : (i64)s.below(300)}, {bytes(a), bytes(b)})};
    }
  }
}
const Property P = {"C15", "strings of 0 to 170 hex digits of either case, with and without foreign characters, through the operation (also started twice); 80-byte inputs through the core; passwords, salts, counts and lengths through PBKDF2; "
  "all against OpenSSL; non-trivial: a served string of at least two digits, a core or a key derivation case", gen, check, [] { std::cerr.rdbuf(0); }};
} // namespace
const Property& pbt::property() { return P; }
