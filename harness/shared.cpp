// C25: reading shared values and containers on several threads at once, under ThreadSanitizer.
// Every case runs in a child of a process that never used any of them, so first use is raced for too,
// and what each thread saw is compared with what a single thread sees afterwards.
#include <cstdint>
#include <adt/HashTable.h>
#include <adt/StringHashTable.h>
#include <adt/StringMap.h>
#include <adt/Vector.h>
#include <algorithm>
#include <atomic>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include "json_eni.hpp"

using namespace pbt;
namespace {
struct HMul { unsigned operator()(int k) const { return (unsigned)k * 2654435761u; } };
struct HFew { unsigned operator()(int k) const { return (unsigned)k % 3; } };
typedef eni::HashTable<int, int, HMul> Good;
typedef eni::HashTable<int, std::string, HFew> Bad;
typedef eni::StringMap<std::string> Map;
typedef eni::StringHashTable<int> STab;
struct Shared {
  json::Value value; eni::Vector<int> ints; eni::Vector<std::string> strs; Good good; Bad bad; Map map; STab stab;
  const json::Value& v() const { return value; }
};
template<class F> std::string error(F f) { try { f(); return "no error"; } catch (const std::exception& e) { return std::string("error: ") + e.what(); } }
void walk(const json::Value& v, std::ostream& os) {
  os << v.type();
  if (v.isBoolean()) os << v.toBoolean();
  else if (v.isInteger()) os << v.toInteger() << eni::to_string<eni::s256>(v.toInteger());
  else if (v.isString()) os << v.toString().size() << v.toString();
  else if (v.isArray()) { for (size_t i = 0; i < v.toArray().size(); ++i) walk(v.toArray()[(int)i], os); os << v[(int)v.toArray().size()].isUndefined() << v[-1].isUndefined(); }
  else if (v.isObject()) {
    json::Object::const_iterator it, end = v.toObject().end();
    for (it = v.toObject().begin(); it != end; ++it) { os << it->key(); walk(it->value(), os); walk(v[it->key()], os); }
    os << v["\x01 no such member"].isUndefined();
  }
}
// one reading access; the constant interface only
std::string read(const Shared& s, const Op& o) {
  std::ostringstream os; const std::string& w = o.str(0); int n = (int)o.num(1); const std::string& key = o.str(1);
  if (w == "print") { s.value.print(os); s.value.printValue(os); }
  else if (w == "walk") walk(s.value, os);
  else if (w == "copyval") { json::Value c(s.value), d; d = s.value; c.print(os); walk(d, os); }
  else if (w == "index") { os << s.v()[key].type() << s.v()[n].type() << s.v()[0]["x"].type() << s.v()["x"][1].type(); }
  else if (w == "ints") { for (int x : s.ints) os << x << ' '; os << std::count(s.ints.begin(), s.ints.end(), n) << s.ints.size() << s.ints.empty() << s.ints.capacity() << s.ints.max_size(); }
  else if (w == "at") {
    const eni::Vector<int>& v = s.ints; os << error([&] { os << v.at((size_t)n); }) << error([&] { os << s.strs.at((size_t)n); });
    if (!v.empty()) os << v[(size_t)n % v.size()] << *(v.begin() + (ptrdiff_t)((size_t)n % v.size())) << (v.end() - v.begin());
  }
  else if (w == "copyvec") { eni::Vector<std::string> c(s.strs), d; d = s.strs; c.push_back(key); for (auto& x : c) os << x << '\n'; os << d.size(); eni::Vector<int> e(s.ints); e.insert(e.end(), s.ints.begin(), s.ints.end()); os << e.size(); }
  else if (w == "find") {
    Good::const_iterator g = s.good.find(n), ge = s.good.end(); os << (g != ge); if (g != ge) os << g->key() << g->value();
    Bad::const_iterator b = s.bad.find(n), be = s.bad.end(); os << (b != be); if (b != be) os << b->key() << b->value();
    os << s.good.count(n) << s.bad.count(n) << s.good.load_factor() << s.bad.empty() << s.good.numOfEntries() << s.good.numOfBuckets() << s.good.numOfTombstones();
  }
  else if (w == "tables") {
    Good::const_iterator i, e = s.good.end(); for (i = s.good.begin(); i != e; ++i) os << i->key() << '=' << i->value() << ' ';
    Bad::const_chain_iterator c, ce = s.bad.end(n); for (c = s.bad.begin(n); c != ce; ++c) os << c->key() << '=' << c->value() << ' ';
  }
  else if (w == "copytab") { Good c(s.good); Bad d(s.bad), f; f = s.bad; bool ex; d.insert(n, ex); os << c.numOfEntries() << d.numOfEntries() << f.count(n); Map m(s.map), q; q = s.map; m[key] = "x"; os << m.size() << q.size(); }
  else if (w == "map") {
    Map::const_iterator i, e = s.map.end(); for (i = s.map.begin(); i != e; ++i) os << i->key() << '=' << i->value() << ' ';
    os << (s.map.find(key) == e) << error([&] { os << s.map.at(key); }) << error([&] { os << s.map[key]; }) << s.map.size() << s.map.empty();
  }
  else {
    STab::const_iterator i = s.stab.find(key), e = s.stab.end(); os << (i != e) << s.stab.count(key); if (i != e) os << i->value();
    for (i = s.stab.begin(); i != e; i++) os << i->key() << i->value();
    os << error([&] { (void)e->key(); });
  }
  return os.str();
}
void build(Shared& s, const Case& c) {
  for (const Op& o : c) {
    int n = (int)o.num(0), m = (int)o.num(1); bool ex; const std::string& k = o.str(0);
    if (o.k == "doc") { jref::V v; jref::Reader r(k, false); if (r.value(v) && !r.wideEscape && v.exact) s.value = jcmp::build(v); }
    else if (o.k == "int") { s.ints.push_back(n); s.good.insert(n, ex)->setValue(m); }
    else if (o.k == "bad") s.bad.insert(n, ex)->setValue(k);
    else if (o.k == "str") { s.strs.push_back(k); s.map[k] = k; s.stab.insert(k, ex)->setValue(m); }
    else if (o.k == "del") { s.good.erase(n); s.bad.erase(n); }
    else if (o.k == "reserve") s.ints.reserve((size_t)n);
  }
}
std::string inChild(const Case& c, const std::vector<std::vector<Op>>& work) {
  Shared s; build(s, c);
  std::vector<std::vector<std::string>> got(work.size());
  std::atomic<int> ready(0); std::atomic<bool> go(false);
  std::vector<std::thread> ts;
  for (size_t t = 0; t < work.size(); ++t) ts.emplace_back([&, t] {
    ready.fetch_add(1); while (!go.load()) {}
    for (auto& o : work[t]) got[t].push_back(read(s, o));
  });
  while (ready.load() < (int)work.size()) {}
  go.store(true);
  for (auto& t : ts) t.join();
  for (size_t t = 0; t < work.size(); ++t) for (size_t i = 0; i < work[t].size(); ++i) {
    std::string alone = read(s, work[t][i]);
    if (alone != got[t][i]) return "thread " + std::to_string(t) + " reads " + jcmp::show(got[t][i]) + ", alone " + jcmp::show(alone) + " by " + work[t][i].str(0);
  }
  return "";
}
void check(const Case& c, Ctx& ctx) {
  std::vector<std::vector<Op>> work(4); size_t data = 0;
  for (const Op& o : c) if (o.k == "read") { work[(u64)o.num(0) % 4].push_back(o); ctx.label(o.str(0)); } else ++data;
  for (size_t i = work.size(); i--;) if (work[i].empty()) work.erase(work.begin() + i);
  if (work.empty()) return;
  int p[2]; if (pipe(p)) fail("pipe");
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]); dup2(p[1], 2); alarm(100);
    std::string why = inChild(c, work);
    if (!why.empty()) { why += "\n"; if (::write(2, why.data(), why.size())) {} _exit(3); }
    _exit(0);
  }
  close(p[1]); std::string out; char buf[4096]; ssize_t n; while ((n = ::read(p[0], buf, sizeof buf)) > 0) if (out.size() < 20000) out.append(buf, n);
  close(p[0]); int st; waitpid(pid, &st, 0);
  PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "concurrent reading " << (WIFSIGNALED(st) ? "is killed by signal " + std::to_string(WTERMSIG(st)) : WEXITSTATUS(st) == 66 ? std::string("races") : "ends with " + std::to_string(WEXITSTATUS(st))) << ": " << out.substr(0, 2500));
  ctx.label(std::to_string(work.size()) + " threads");
  if (work.size() > 1 && data) ctx.nontrivial = true;
}
Case gen(Src& s) {
  static const std::vector<std::string> reads = {"print", "walk", "copyval", "index", "ints", "at", "copyvec", "find", "find", "tables", "copytab", "map", "map", "stab"};
  Case c; std::vector<std::string> keys; std::vector<int> nums;
  if (s.p(85)) { jref::GenOpt g; g.budget = 15; g.wsDensity = 0; g.rawControls = false; g.maxStr = 20; std::string t; jref::genValue(s, g, 0, 4, t); c.push_back(Op("doc", {}, {t})); }
  size_t n = s.len(40);
  for (size_t i = 0; i < n; ++i) { int k = (int)s.below(60) - 10; nums.push_back(k); c.push_back(s.p(60) ? Op("int", {k, (i64)s.below(100)}) : s.p(70) ? Op("bad", {k}, {std::string(s.below(30), (char)('a' + s.below(26)))}) : Op("del", {k})); }
  if (s.rare(20)) c.push_back(Op("reserve", {(i64)s.below(200)}));
  n = s.len(20);
  for (size_t i = 0; i < n; ++i) { std::string k = jref::genBytes(s, 12); keys.push_back(k); c.push_back(Op("str", {0, (i64)s.below(100)}, {k})); }
  n = 3 + s.below(12); bool same = s.p(40); Op first;
  for (size_t i = 0; i < n; ++i) {
    Op o("read", {0, nums.size() && s.p(70) ? (i64)s.pick(nums) : (i64)s.below(100) - 20}, {s.pick(reads), keys.size() && s.p(65) ? s.pick(keys) : "k" + std::to_string(s.below(5))});
    if (same && i) o = first; else if (!i) first = o;
    o.n[0] = (i64)(i % 4); c.push_back(o);
  }
  return c;
}
const Property P = {"C25", "JSON values, vectors, hash tables and string maps built from a generated history, then read (walked, looked up, indexed inside and outside, printed, copied) by two to four threads at once "
  "through their constant interface, in a fresh process under ThreadSanitizer, and once more alone; non-trivial: at least two threads and something built", gen, check, [] { std::cerr.rdbuf(0); }};
} // namespace
const Property& pbt::property() { return P; }
