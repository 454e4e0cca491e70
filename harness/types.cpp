// C20: integer types against schoolbook arithmetic on decimal and binary digits.
#include <eni_types.h>
#include <sstream>
#include "pbt.hpp"

using namespace pbt;
namespace {
// natural numbers as little-endian base 2^32 digits, written for this check
typedef std::vector<uint32_t> N;
void trim(N& a) { while (!a.empty() && !a.back()) a.pop_back(); }
N add(const N& a, const N& b) { N r; u64 c = 0; for (size_t i = 0; i < std::max(a.size(), b.size()) || c; ++i) { c += (i < a.size() ? a[i] : 0) + (u64)(i < b.size() ? b[i] : 0); r.push_back((uint32_t)c); c >>= 32; } trim(r); return r; }
N mul(const N& a, const N& b) { N r(a.size() + b.size() + 1); for (size_t i = 0; i < a.size(); ++i) { u64 c = 0; for (size_t j = 0; j < b.size() || c; ++j) { c += r[i + j] + (u64)a[i] * (j < b.size() ? b[j] : 0); r[i + j] = (uint32_t)c; c >>= 32; } } trim(r); return r; }
int cmp(const N& a, const N& b) { if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1; for (size_t i = a.size(); i--;) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
N sub(const N& a, const N& b) { N r; i64 c = 0; for (size_t i = 0; i < a.size(); ++i) { c += (i64)a[i] - (i < b.size() ? (i64)b[i] : 0); r.push_back((uint32_t)c); c >>= 32; } trim(r); return r; }
N low(N a, unsigned bits) { if (a.size() > bits / 32) a.resize(bits / 32); trim(a); return a; }
N pow2(unsigned bits) { N r(bits / 32 + 1); r.back() = 1u << bits % 32; return r; }
std::string dec(N a) {
  std::string o;
  while (!a.empty()) { u64 r = 0; for (size_t i = a.size(); i--;) { r = r << 32 | a[i]; a[i] = (uint32_t)(r / 10); r %= 10; } trim(a); o += (char)('0' + r); }
  if (o.empty()) o = "0";
  return std::string(o.rbegin(), o.rend());
}
N undec(const std::string& s) { N r; for (char c : s) { r = add(mul(r, N{10}), c == '0' ? N{} : N{(uint32_t)(c - '0')}); } return r; }
N fromBytes(const std::string& b, unsigned bits) { N r((b.size() + 3) / 4); for (size_t i = 0; i < b.size(); ++i) r[i / 4] |= (uint32_t)(unsigned char)b[i] << 8 * (i % 4); return low(r, bits); }

// what Boost prints by itself follows the locale for 64 bits, as built-in integers do
template<class T> std::string text(const T& t) { std::ostringstream os; os.imbue(std::locale::classic()); std::locale was = std::locale::global(std::locale::classic()); os << t; std::locale::global(was); return os.str(); }
template<class T> std::string str(const T& t) { std::locale was = std::locale::global(std::locale::classic()); std::string r = t.str(); std::locale::global(was); return r; }

template<class T> void unsignedLaws(unsigned bits, const N& a0, const N& b0, const char* name) {
  N a = low(a0, bits), b = low(b0, bits);
  T x(dec(a)), y(dec(b));
  PBT_CHECK(text(x) == dec(a) && str(x) == dec(a), name << ": " << dec(a) << " prints as " << text(x));
  PBT_CHECK(eni::to_string<T>(x) == dec(a), "to_string<" << name << ">: " << dec(a) << " gives " << eni::to_string<T>(x));
  T back(text(x)); PBT_CHECK(back == x, name << ": " << dec(a) << " does not read back");
  T s = x + y, p = x * y; T d = x - y; T inc = x; ++inc;
  PBT_CHECK(text(s) == dec(low(add(a, b), bits)), name << ": " << dec(a) << " + " << dec(b) << " is " << text(s));
  PBT_CHECK(text(p) == dec(low(mul(a, b), bits)), name << ": " << dec(a) << " * " << dec(b) << " is " << text(p));
  PBT_CHECK(text(d) == dec(low(sub(add(a, pow2(bits)), b), bits)), name << ": " << dec(a) << " - " << dec(b) << " is " << text(d));
  PBT_CHECK(text(inc) == dec(low(add(a, N{1}), bits)), name << ": the successor of " << dec(a) << " is " << text(inc));
  PBT_CHECK((x < y) == (cmp(a, b) < 0) && (x == y) == (cmp(a, b) == 0), name << ": comparison of " << dec(a) << " and " << dec(b));
}

void check(const Case& c, Ctx& ctx) {
  for (const Op& o : c) {
    N a = fromBytes(o.str(0), 256), b = fromBytes(o.str(1), 256);
    unsignedLaws<eni::u256>(256, a, b, "u256");
    unsignedLaws<eni::u160>(160, a, b, "u160");
    unsignedLaws<eni::u128>(128, a, b, "u128");
    unsignedLaws<eni::u64>(64, a, b, "u64");
    // every magnitude with either sign
    bool neg = o.num(0) & 1, nb = o.num(0) & 2;
    std::string ta = (neg && !a.empty() ? "-" : "") + dec(a), tb = (nb && !b.empty() ? "-" : "") + dec(b);
    eni::s256 x(ta), y(tb);
    PBT_CHECK(text(x) == ta && str(x) == ta, "s256: " << ta << " prints as " << text(x));
    PBT_CHECK(eni::s256(text(x)) == x, "s256: " << ta << " does not read back");
    PBT_CHECK((x < 0) == (neg && !a.empty()), "s256: " << ta << " has the wrong sign");
    bool na = neg && !a.empty(), nn = nb && !b.empty();
    int want = na != nn ? (na ? -1 : 1) : na ? -cmp(a, b) : cmp(a, b);
    PBT_CHECK((x < y) == (want < 0) && (x == y) == (want == 0) && (x > y) == (want > 0), "s256: comparison of " << ta << " and " << tb);
    PBT_CHECK(eni::to_string<eni::s256>(x) == ta, "to_string<s256>: " << ta << " gives " << eni::to_string<eni::s256>(x));
    N half = pow2(255);
    if (cmp(a, half) < 0 && cmp(b, half) < 0) {        // the sum fits
      bool sneg; N mag;
      if (neg == nb) { mag = add(a, b); sneg = neg; } else if (cmp(a, b) >= 0) { mag = sub(a, b); sneg = neg; } else { mag = sub(b, a); sneg = nb; }
      std::string ts = (sneg && !mag.empty() ? "-" : "") + dec(mag);
      PBT_CHECK(text(eni::s256(x + y)) == ts, "s256: " << ta << " + " << tb << " is " << text(eni::s256(x + y)));
    }
    if (a.size() + b.size() <= 8) {
      N mag = mul(a, b); std::string tp = ((neg != nb) && !mag.empty() ? "-" : "") + dec(mag);
      PBT_CHECK(text(eni::s256(x * y)) == tp, "s256: " << ta << " * " << tb << " is " << text(eni::s256(x * y)));
    }
    // the library's own conversions
    bool v = o.num(0) & 4;
    PBT_CHECK(eni::to_string<eni::Bool>(v) == (v ? "true" : "false"), "a boolean prints as " << eni::to_string<eni::Bool>(v));
    if (a.size() >= 2 || b.size() >= 2) ctx.nontrivial = true;
    if (a.size() == 8) ctx.label("256 bits");
    if (neg) ctx.label("negative");
  }
}
Case gen(Src& s) {
  Op o("pair");
  for (int i = 0; i < 2; ++i) {
    std::string b; size_t n = s.below(33); int style = (int)s.below(8);
    if (style >= 4) {
      N v; auto power = [&](unsigned base, size_t top) { N r{1}; for (size_t k = s.below(top); k--;) r = mul(r, N{base}); return r; };
      switch (style) {
        case 4: case 5: for (size_t k = 1 + s.below(4); k--;) v = add(v, mul(N{1 + (uint32_t)s.below(s.p(70) ? 9 : 4000000000u)}, power(10, 77))); break;   // few digits but zeros
        case 6: for (size_t k = 1 + s.below(4); k--;) v = add(v, mul(N{1 + (uint32_t)s.below(3)}, power(2, 256))); break;          // few bits but zeros
        default: v = s.p(50) ? power(10, 78) : pow2(8 * (unsigned)s.below(33)); N t{(uint32_t)s.below(4)}; trim(t); v = s.p(50) || cmp(v, t) < 0 ? add(v, t) : sub(v, t);   // beside a limit
      }
      for (size_t k = 0; k < 32; ++k) b += (char)(k / 4 < v.size() ? v[k / 4] >> 8 * (k % 4) : 0);
      o.s.push_back(b); continue;
    }
    for (size_t k = 0; k < n; ++k) b += style == 0 ? (char)0xff : style == 1 ? (char)(k + 1 == n ? 1 << s.below(8) : 0) : (char)s.below(256);
    o.s.push_back(b);
  }
  o.n = {(i64)s.below(8)};
  return Case{o};
}
const Property P = {"C20", "pairs of numbers of up to 256 bits (all ones, powers of two, few digits or bits between zeros, beside a limit, random) with either sign: text, reading back, sums, differences, products and comparisons in every width, "
  "against schoolbook arithmetic; non-trivial: a number above 32 bits", gen, check, nullptr};
} // namespace
const Property& pbt::property() { return P; }
