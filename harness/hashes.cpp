// C30: hash functions and comparison of strings.
#include <adt/StringHasher.h>       // first, as everything here has to find what it needs
#include "locales.hpp"
#include "pbt.hpp"

using namespace pbt;
using namespace eni::internal;
namespace {
// The published functions, with characters taken as signed, which is what they are on the
// platform the library is made for; in 64 bits, reduced at every step.
const u64 M = 0xffffffffull;
u64 ch(char c) { unsigned char u = (unsigned char)c; return u < 128 ? u : (M ^ (255 - u)); }   // sign extended to 32 bits
u64 published(int f, const std::string& t) {
  u64 h = 0, n = t.size();
  switch (f) {
    case 0: { u64 a = 63689; for (char c : t) { h = (h * a + ch(c)) & M; a = a * 378551 & M; } return h; }
    case 1: h = 1315423911; for (char c : t) h ^= ((h << 5) + ch(c) + (h >> 2)) & M; return h;
    case 2: for (char c : t) { h = ((h << 4) + ch(c)) & M; u64 top = h & 0xf0000000; if (top) h = (h ^ (top >> 24)) & 0x0fffffff; } return h;
    case 3: for (char c : t) { h = ((h << 4) + ch(c)) & M; u64 x = h & 0xf0000000; if (x) h ^= x >> 24; h &= M & ~x; } return h;
    case 4: for (char c : t) h = (h * 131 + ch(c)) & M; return h;
    case 5: for (char c : t) h = (ch(c) + h * 65599) & M; return h;
    case 6: h = 5381; for (char c : t) h = (h * 33 + ch(c)) & M; return h;
    case 7: h = n & M; for (char c : t) h = (((h << 5) & M) ^ (h >> 27)) ^ ch(c); return h;
    case 8: for (char c : t) h = ((h << 7) & M) ^ ch(c); return h;
    case 9: for (char c : t) h = (h * 0x811c9dc5 & M) ^ ch(c); return h;
    default: { h = 0xaaaaaaaa; u64 i = 0; for (char c : t) { if (i++ % 2 == 0) h ^= (((h << 7) & M) ^ (ch(c) * (h >> 3))) & M; else h ^= M & ~(((h << 11) + (ch(c) ^ (h >> 5))) & M); } return h & M; }
  }
}
const char* const kName[] = {"RS", "JS", "PJW", "ELF", "BKDR", "SDBM", "DJB", "DEK", "BP", "FNV", "AP"};
u64 project(int f, const std::string& t) {
  switch (f) {
    case 0: return StringHasher<RS>()(t); case 1: return StringHasher<JS>()(t); case 2: return StringHasher<PJW>()(t); case 3: return StringHasher<ELF>()(t);
    case 4: return StringHasher<BKDR>()(t); case 5: return StringHasher<SDBM>()(t); case 6: return StringHasher<DJB>()(t); case 7: return StringHasher<DEK>()(t);
    case 8: return StringHasher<BP>()(t); case 9: return StringHasher<FNV>()(t); default: return StringHasher<AP>()(t);
  }
}
std::string genText(Src& s) {
  int style = (int)s.below(5); size_t n = s.len(s.rare(4) ? 3000 : 40); std::string t;
  for (size_t i = 0; i < n; ++i) switch (style) {
    case 0: t += (char)('a' + s.below(26)); break;
    case 1: t += (char)s.below(256); break;
    case 2: t += "\0\x01\x7f\x80\xff az"[s.below(8)]; break;
    case 3: t += (char)(128 + s.below(128)); break;
    default: t += (char)(32 + s.below(95)); break;
  }
  return t;
}
Case gen(Src& s) {
  Case c; size_t n = 1 + s.below(4);
  while (n--) {
    Op o("pair"); std::string a = genText(s), b = a;
    switch (s.below(6)) {
      case 0: b = genText(s); break;
      case 1: if (!b.empty()) b[s.below(b.size())] ^= (char)(1 << s.below(8)); break;
      case 2: b += (char)s.below(256); break;
      case 3: if (!b.empty()) b.pop_back(); break;
      case 4: b += std::string(1, '\0') + genText(s); break;
      default: break;
    }
    o.s = {a, b}; o.n = {(i64)s.below(11), (i64)s.below(3), (i64)s.below(16)}; c.push_back(o);
  }
  return c;
}
void check(const Case& c, Ctx& ctx) {
  for (const Op& o : c) {
    if (o.k != "pair") continue;
    const std::string &a = o.str(0), &b = o.str(1); int f = (int)((u64)o.num(0) % 11); locales::In in((u64)o.num(1));
    for (int g = f; g < f + (a.size() > 200 ? 2 : 11); ++g) {
      int k = g % 11; u64 x = project(k, a), want = published(k, a);
      PBT_CHECK(x == want, "the " << kName[k] << " hash of " << quote(a.substr(0, 400)) << (a.size() > 400 ? "..." : "") << " is " << x << ", not " << want);
      std::string copy; copy.reserve(a.size() + (size_t)((u64)o.num(2) % 16)); copy = a;   // elsewhere, with other bytes behind it
      PBT_CHECK(project(k, copy) == x, "the " << kName[k] << " hash of " << quote(a.substr(0, 400)) << " depends on more than the text");
    }
    for (char x : a) if ((unsigned char)x > 127) { ctx.nontrivial = true; ctx.label("bytes above 127"); break; }
    if (a.find('\0') != std::string::npos) { ctx.nontrivial = true; ctx.label("NUL bytes"); }
    // comparison
    bool same = a == b; StringCompare<std::string> s; PBT_CHECK(s(a, b) == same && s(b, a) == same && s(a, a), "the comparison of " << quote(a.substr(0, 400)) << " and " << quote(b.substr(0, 400)) << " is wrong");
    std::string p = a.c_str(), q = b.c_str(); std::vector<char> u(p.begin(), p.end()), v(q.begin(), q.end()); u.push_back(0); v.push_back(0); same = p == q;
    StringCompare<const char*> cs; StringCompare<char*> ms;
    PBT_CHECK(cs(u.data(), v.data()) == same && cs(v.data(), u.data()) == same && cs(u.data(), u.data()), "the comparison of the C strings " << quote(p.substr(0, 400)) << " and " << quote(q.substr(0, 400)) << " is wrong");
    PBT_CHECK(ms(u.data(), v.data()) == same && ms(v.data(), u.data()) == same && ms(v.data(), v.data()), "the comparison of the C strings " << quote(p.substr(0, 400)) << " and " << quote(q.substr(0, 400)) << " is wrong");
    ctx.label(same ? "equal" : "different");
  }
}
const Property P = {"C30", "pairs of strings (equal, almost equal, one the beginning of the other, unrelated; raw bytes, NUL bytes, up to 3000) in three locales: every hash function against the published one, the comparisons against the contents; "
  "non-trivial: bytes above 127 or NUL bytes", gen, check, nullptr};
} // namespace
const Property& pbt::property() { return P; }
