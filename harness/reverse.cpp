// C16: the reverse operation.
#include <algorithm>
#include "json_eni.hpp"

using namespace pbt;
extern "C" { char* reverse_run(char*); uint64_t* reverse_gas(char*); }
namespace {
std::string call(const std::string& s, Src* ws, const std::string& before, const std::string& after) {
  std::string text = before + "[" + jref::writeStr(ws, s, true) + after;
  if (text.find('\0') != std::string::npos) text = before + "[" + jref::writeStr(ws, s, false) + after;
  std::vector<char> buf(text.begin(), text.end()); buf.push_back(0);
  char* r = reverse_run(buf.data());
  PBT_CHECK(r, "a string of " << s.size() << " bytes is rejected");
  std::string t(r); free(r);
  jref::V v;
  PBT_CHECK(jref::readStrict(t, v) && v.kind == jref::Arr && v.a.size() == 1 && v.a[0].kind == jref::Str, "the result is not an array of one string: " << jcmp::show(t));
  return v.a[0].s;
}
void check(const Case& c, Ctx& ctx) {
  for (const Op& o : c) {
    std::string s = o.str(0); u64 rep = (u64)o.num(1) % 300; if (rep && s.size() < 400) { std::string u = s; while (rep--) s += u; }
    Src ws(1, (u64)o.num(0), 4);
    static const char* tails[] = {"]", " ] ", ",1]", ",\"other\",[true]]"};
    std::string before = o.num(0) & 1 ? "" : " \n", after = tails[(u64)o.num(0) / 2 % 4];
    std::string r = call(s, &ws, before, after);
    PBT_CHECK(r == std::string(s.rbegin(), s.rend()), "the reverse of " << jcmp::show(s) << " is " << jcmp::show(r));
    PBT_CHECK(call(r, 0, "", "]") == s, "reversing " << jcmp::show(s) << " twice gives another string");
    if (s.size() > 1 && r != s) ctx.nontrivial = true;
    if (s.find('\0') != std::string::npos) ctx.label("NUL");
    for (char ch : s) if (ch & 0x80) { ctx.label("bytes above 127"); break; }
    if (s.size() > 1000) ctx.label("longer than 1000");
  }
}
Case gen(Src& s) { return Case{Op("reverse", {(i64)s.below(1 << 20), s.rare(10) ? (i64)s.below(300) : 0}, {jref::genBytes(s, s.rare(5) ? 3000 : 80)})}; }
const Property P = {"C16", "strings of any bytes written with every escape and repeated up to lengths above 100000, reversed once and twice; non-trivial: a string that differs from its reverse", gen, check, [] { std::cerr.rdbuf(0); }};
} // namespace
const Property& pbt::property() { return P; }
