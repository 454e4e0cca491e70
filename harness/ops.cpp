// C10: no argument list crashes a shipped operation.  C18: gas follows its published rate.
#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <unistd.h>
#include <eni_crypto/eni_crypto.h>
#include <eni_scrypt/eni_scrypt.h>
#include "json_eni.hpp"
#include "calls.hpp"
#include "crypto_guard.hpp"
#include "elsewhere.hpp"

using namespace pbt;
#define OP(n) char* n##_run(char*); uint64_t* n##_gas(char*);
extern "C" { OP(reverse) OP(json) OP(scrypt) OP(rsa_encrypt) OP(rsa_decrypt) }
namespace {
typedef char* (*Run)(char*); typedef uint64_t* (*Gas)(char*);
Run runOf(const std::string& o) { return o == "reverse" ? reverse_run : o == "json" ? json_run : o == "scrypt" ? scrypt_run : o == "rsa_encrypt" ? rsa_encrypt_run : rsa_decrypt_run; }
Gas gasOf(const std::string& o) { return o == "reverse" ? reverse_gas : o == "json" ? json_gas : o == "scrypt" ? scrypt_gas : o == "rsa_encrypt" ? rsa_encrypt_gas : rsa_decrypt_gas; }
// the text of a call in memory that can only be read, and not beyond its end
struct Text {
  explicit Text(const std::string& t) {
    m_Room = (t.size() + 1 + 4095) / 4096 * 4096;
    m_Map = (char*)mmap(0, m_Room + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m_Map == (char*)-1) fail("mmap");
    text = m_Map + m_Room - t.size() - 1;
    memcpy(text, t.c_str(), t.size() + 1);
    mprotect(m_Map, m_Room, PROT_READ); mprotect(m_Map + m_Room, 4096, PROT_NONE);
  }
  ~Text() { munmap(m_Map, m_Room + 4096); }
  char *text, *m_Map; size_t m_Room;
};
u64 gas(const std::string& op, const std::string& text, bool elsewhere = false) {
  Text b(text); Elsewhere e(elsewhere);
  uint64_t* g = gasOf(op)(b.text); PBT_CHECK(g, op << " quotes no gas"); u64 v = *g; free(g); return v;
}
bool run(const std::string& op, const std::string& text, std::string& out) {
  Text b(text); char* r = runOf(op)(b.text);
  if (!r) return false; out = r; free(r);
  jref::V v;
  PBT_CHECK(jref::readStrict(out, v) && v.kind == jref::Arr && v.a.size() == 1 && v.a[0].kind == jref::Str, "the result of " << op << " is not an array of one string: " << jcmp::show(out));
  out = v.a[0].s; return true;
}
// the text of a call, if it is a well-formed one in the domain
bool accepts(const Op& o, jref::V& v) {
  const std::string& t = o.str(1);
  if (o.k != "call" || t.find('\0') != std::string::npos) return false;
  jref::Reader r(t, false);
  bool known = false; for (auto& n : calls::names()) known = known || n == o.str(0);
  return known && r.value(v) && !r.wideEscape && calls::inDomain(o.str(0), t);
}

#if defined(PROP_C10)
int g_Waiting = 0;     // bytes waiting on the standard input
void check(const Case& c, Ctx& ctx) {
  for (const Op& o : c) {
    jref::V v; if (!accepts(o, v)) continue;
    const std::string &op = o.str(0), &t = o.str(1); std::string out;
    u64 g = gas(op, t); bool ok = run(op, t, out);
    int left = -1; ioctl(0, FIONREAD, &left);
    PBT_CHECK(left == g_Waiting, op << " reads the standard input");
    calls::Known k = calls::gasOf(op, v);
    if (k.decided && k.rejected) { PBT_CHECK(g == 1500 && !ok, op << " does not reject " << jcmp::show(t) << ": gas " << g << (ok ? ", result " + jcmp::show(out) : "")); ctx.label("rejected"); }
    if (k.decided && !k.rejected && op != "rsa_encrypt" && op != "rsa_decrypt") PBT_CHECK(ok, op << " does not serve " << jcmp::show(t));
    if (!k.decided) ctx.label(ok ? "served doubtful key" : "refused doubtful key");
    if (ok) ctx.label("served");
    ctx.label(op);
    if ((k.decided && k.rejected && v.kind == jref::Arr) || !k.decided) ctx.nontrivial = true;
  }
}
Case gen(Src& s) { Case c; size_t n = 1 + s.below(3); while (n--) c.push_back(calls::gen(s, true)); return c; }
void init() {
  std::cerr.rdbuf(0); keys::pool();
  int p[2]; if (pipe(p)) return;
  static const char text[] = "secret\nsecret\n"; g_Waiting = (int)write(p[1], text, sizeof text - 1);
  dup2(p[0], 0); close(p[0]);         // the writing end stays open
}
const Property P = {"C10", "argument lists for every operation: right ones, missing and mistyped arguments, extra ones, other documents, and for RSA texts that are truncated, altered or structurally damaged keys, other kinds of keys and encrypted keys; "
  "every call must end in one string or none, without reading the standard input; non-trivial: a list the operation must reject, or a key it may reject", gen, check, init};

#else
template<class F> void instance(const std::string& t, u64 want, bool perResult, i64 order, const std::string& op) {
  F x(t);
  for (int i = 0; i < 6; ++i) {
    if (order >> i & 1) { char* r = x.start(); free(r); }
    else { u64 g = x.getGas(); PBT_CHECK(g == want, op << ": one instance quotes " << g << " instead of " << want << " after " << i << " calls"); }
  }
}
void check(const Case& c, Ctx& ctx) {
  for (const Op& o : c) {
    jref::V v; if (!accepts(o, v)) continue;
    const std::string &op = o.str(0), &t = o.str(1); std::string out;
    calls::Known k = calls::gasOf(op, v);
    if (!k.decided) continue;
    u64 want = k.gas, first = gas(op, t);
    bool ok = run(op, t, out);
    if (k.perResult) { PBT_CHECK(ok, op << " does not serve " << jcmp::show(t)); want = 10 * out.size(); }
    PBT_CHECK(first == want, op << " quotes " << first << " instead of " << want << " for " << jcmp::show(t));
    u64 again = gas(op, t); PBT_CHECK(again == want, op << " quotes " << again << " instead of " << want << " after running");
    again = gas(op, t); PBT_CHECK(again == want, op << " quotes " << again << " instead of " << want << " the third time");
    again = gas(op, t, true); PBT_CHECK(again == want, op << " quotes " << again << " instead of " << want << " with another environment, at another time");
    i64 order = o.num(0);
    if (op == "scrypt") instance<Scrypt>(t, want, false, order, op);
    if (op == "rsa_encrypt") instance<eni_crypto::RSAEncrypt>(t, want, false, order, op);
    if (op == "rsa_decrypt") instance<eni_crypto::RSADecrypt>(t, want, false, order, op);
    ctx.label(op); ctx.label(k.rejected ? "rejected" : "accepted");
    if (!k.rejected && want) ctx.nontrivial = true;
  }
}
Case gen(Src& s) { Case c; size_t n = 1 + s.below(3); while (n--) { Op o = calls::gen(s, s.rare(25)); o.n = {(i64)s.below(64)}; c.push_back(o); } return c; }
const Property P = {"C18", "calls of every operation, accepted and rejected, with gas quoted before and after running, repeatedly, with other answers to what is asked for outside the arguments, and in generated orders on one instance, against the published rates; "
  "non-trivial: an accepted call of non-zero cost", gen, check, [] { std::cerr.rdbuf(0); keys::pool(); }};
#endif
} // namespace
const Property& pbt::property() { return P; }
