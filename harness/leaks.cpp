// C24: invocations, and the values behind them, give back what they allocate.
// The memory in use is the same before and after, once what is kept for good
// (by a library, on first use) has been allocated.
#define NO_PROPERTY
#include "value_hist.cpp"
#include "calls.hpp"
#include "crypto_guard.hpp"
#include <openssl/err.h>
#include <eni_crypto/eni_crypto.h>
#include <eni_scrypt/eni_scrypt.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define OP(n) char* n##_run(char*); uint64_t* n##_gas(char*);
extern "C" { OP(reverse) OP(json) OP(scrypt) OP(rsa_encrypt) OP(rsa_decrypt) }

namespace leaks {
using namespace pbt;
typedef char* (*Run)(char*); typedef uint64_t* (*Gas)(char*);
Run runOf(const std::string& o) { return o == "reverse" ? reverse_run : o == "json" ? json_run : o == "scrypt" ? scrypt_run : o == "rsa_encrypt" ? rsa_encrypt_run : rsa_decrypt_run; }
Gas gasOf(const std::string& o) { return o == "reverse" ? reverse_gas : o == "json" ? json_gas : o == "scrypt" ? scrypt_gas : o == "rsa_encrypt" ? rsa_encrypt_gas : rsa_decrypt_gas; }

// an operation whose hooks build, keep and return what the case says
class Own : public eni::EniBase {
public:
  Own(const std::string& t, i64 how) : eni::EniBase(t), m_How(how) {}
  ~Own() {}
private:
  bool parse(const json::Array& a) override { if (!a.empty()) m_Kept = a[0]; m_All = json::Value(a); return m_How & 1; }
  eni::Gas gas() const override { return 3; }
  bool run(json::Array& r) override { r.push_back(m_All); r.emplace_back(m_Kept); r.push_back(json::Value("x")); if (m_How & 4) r.pop_back(); return m_How & 2; }
  i64 m_How; json::Value m_Kept, m_All;
};

template<class F> void instance(const std::string& t, i64 order) {
  F x(t);
  for (int i = 0; i < 5; ++i) { if (order >> i & 1) free(x.start()); else x.getGas(); }
}

// true: this operation of the case can be carried out, and was
bool once(const Op& o) {
  const std::string& t = o.str(1);
  if (o.k == "text") {
    json::Parser p(o.str(0)); if (!p) return true;
    json::Value a(p.getRoot()), b; b = a; std::ostringstream os; b.print(os); b = json::Value(true);
    return true;
  }
  if (t.find('\0') != std::string::npos) return false;
  jref::V v; jref::Reader r(t, false); if (!r.value(v)) return false;
  if (o.k == "own") { Own x(t, o.num(0)); for (int i = 3; i < 7; ++i) { if (o.num(0) >> i & 1) free(x.start()); else x.getGas(); } return true; }
  const std::string& op = o.str(0);
  bool known = false; for (auto& n : calls::names()) known = known || n == op;
  if (!known || !calls::inDomain(op, t)) return false;
  std::vector<char> b(t.begin(), t.end()); b.push_back(0);
  free(gasOf(op)(b.data())); free(runOf(op)(b.data())); free(runOf(op)(b.data()));
  if (op == "scrypt") instance<Scrypt>(t, o.num(0));
  if (op == "rsa_encrypt") instance<eni_crypto::RSAEncrypt>(t, o.num(0));
  if (op == "rsa_decrypt") instance<eni_crypto::RSADecrypt>(t, o.num(0));
  return true;
}

// bytes kept by every one of the repetitions of f, 0 when any of them keeps none
template<class F> size_t kept(F f) {
  f();
  size_t most = 0;
  for (int i = 0; i < 20; ++i) {
    ERR_clear_error();
    size_t before = __sanitizer_get_current_allocated_bytes();
    f();
    ERR_clear_error();
    size_t after = __sanitizer_get_current_allocated_bytes();
    if (after <= before) return 0;
    most = after - before;
  }
  return most;
}

void check(const Case& c, Ctx& ctx) {
  Case rest;
  for (const Op& o : c) {
    if (o.k != "call" && o.k != "text" && o.k != "own") { rest.push_back(o); continue; }
    bool did = false;
    size_t k = kept([&] { did = once(o); });
    if (!did) continue;
    PBT_CHECK(k == 0, k << " bytes are kept by every " << (o.k == "text" ? "reading of " + jcmp::show(o.str(0)) : o.k == "own" ? "operation with " + jcmp::show(o.str(1)) : "invocation of " + o.str(0) + " with " + jcmp::show(o.str(1))));
    ctx.label(o.k == "call" ? o.str(0) : o.k);
    if (o.str(o.k == "text" ? 0 : 1).size() > 8) ctx.nontrivial = true;
  }
  if (!rest.empty()) {
    size_t k = kept([&] { Ctx x; ::check(rest, x); if (x.nontrivial) ctx.nontrivial = true; });
    PBT_CHECK(k == 0, k << " bytes are kept by a history of values");
    ctx.label("values");
  }
}

Case gen(Src& s) {
  Case c;
  switch (s.weighted({4, 3, 2, 3})) {
    case 0: { size_t n = 1 + s.below(2); while (n--) { Op o = calls::gen(s, s.p(50)); o.n = {(i64)s.below(32)}; c.push_back(o); } break; }
    case 1: {
      std::string t = jref::genDoc(s, s.p(50), true);
      if (s.p(50)) switch (s.below(3)) {     // damaged
        case 0: t = t.substr(0, s.below(t.size() + 1)); break;
        case 1: t[s.below(t.size())] = "]}[{\",:x1"[s.below(9)]; break;
        default: t.insert(s.below(t.size() + 1), 1, "]}[{\",:x1"[s.below(9)]); break;
      }
      c.push_back(Op("text", {}, {t})); break;
    }
    case 2: c.push_back(Op("own", {(i64)s.below(128)}, {"", jref::genDoc(s, s.p(90), true)})); break;
    default: return ::gen(s);
  }
  return c;
}
const Property P = {"C24",
  "invocations of every shipped operation, served and rejected, instances asked for gas and started in generated orders, an operation that keeps and returns parts of its arguments, readings of whole and damaged documents, "
  "and histories of values; each is repeated and must not keep a byte; non-trivial: an argument text of more than 8 bytes, or a history with a copy and a mutation", gen, check, [] { std::cerr.rdbuf(0); keys::pool(); }};
} // namespace leaks
const pbt::Property& pbt::property() { return leaks::P; }
