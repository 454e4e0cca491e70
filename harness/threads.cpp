// C12: invocations on several threads, under ThreadSanitizer.  Every case runs in
// a child of a process that never invoked anything, so first use is raced for too.
#include <atomic>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <eni_crypto/eni_crypto.h>
#include <eni_scrypt/eni_scrypt.h>
#include "json_eni.hpp"
#include "calls.hpp"

using namespace pbt;
#define OP(n) char* n##_run(char*); uint64_t* n##_gas(char*);
extern "C" { OP(reverse) OP(json) OP(scrypt) OP(rsa_encrypt) OP(rsa_decrypt) }

// an operation that uses values in every way an operation can
class Walk : public eni::EniBase {
public:
  explicit Walk(const std::string& t) : eni::EniBase(t) {}
private:
  bool parse(const json::Array& a) override { if (!a.size()) return false; m_Args = json::Value(a); return true; }
  eni::Gas gas() const override { std::ostringstream os; m_Args.print(os); return os.str().size(); }
  void visit(const json::Value& v, json::Array& out, int depth) {
    const json::Value& none = v["no such member"]; const json::Value& out_of = v[1000000];
    if (none.isUndefined() && out_of.isUndefined()) ++m_Seen;
    json::Value copy(v), again; again = copy;
    if (v.isArray()) for (size_t i = 0; i < v.toArray().size(); ++i) visit(v.toArray()[i], out, depth + 1);
    else if (v.isObject()) {
      json::Object::const_iterator it, end = v.toObject().end();
      for (it = v.toObject().begin(); it != end; ++it) visit(it->value(), out, depth + 1);
      json::Object& o = again.asObject(); for (int i = 0; i < 9; ++i) o["k" + std::to_string(i)] = json::Value(i);
      for (int i = 0; i < 9; ++i) o.erase("k" + std::to_string(i));
    } else if (v.isInteger()) { eni::s256 x = v.toInteger(); out.emplace_back(eni::to_string<eni::s256>(x)); }
    try { v.isArray() && v.toArray().at(v.toArray().size()).isArray(); } catch (const std::exception& e) { out.emplace_back(std::string(e.what())); }
    if (depth == 1) out.push_back(again);
  }
  bool run(json::Array& r) override { m_Seen = 0; visit(m_Args, r, 0); r.push_back(json::Value((int)m_Seen)); return true; }
  json::Value m_Args; int m_Seen = 0;
};
ENI_C_INTERFACE(walk, Walk)

namespace {
struct Outcome { bool has = false; u64 gas = 0; std::string text; };
struct Item { std::string op, text; i64 how; char* arg; };   // how: 1 an instance that is kept, 2 the text is shared by all threads
Outcome invoke(const std::string& op, char* arg) {
  typedef char* (*Run)(char*); typedef uint64_t* (*Gas)(char*);
  Run rf = op == "reverse" ? reverse_run : op == "json" ? json_run : op == "scrypt" ? scrypt_run : op == "rsa_encrypt" ? rsa_encrypt_run : op == "rsa_decrypt" ? rsa_decrypt_run : walk_run;
  Gas gf = op == "reverse" ? reverse_gas : op == "json" ? json_gas : op == "scrypt" ? scrypt_gas : op == "rsa_encrypt" ? rsa_encrypt_gas : op == "rsa_decrypt" ? rsa_decrypt_gas : walk_gas;
  Outcome o;
  uint64_t* g = gf(arg); o.gas = *g; free(g);
  char* r = rf(arg); if (r) { o.has = true; o.text = r; free(r); }
  return o;
}
eni::EniBase* make(const std::string& op, const std::string& t) {
  if (op == "scrypt") return new Scrypt(t);
  if (op == "rsa_encrypt") return new eni_crypto::RSAEncrypt(t);
  if (op == "rsa_decrypt") return new eni_crypto::RSADecrypt(t);
  return op == "walk" ? new Walk(t) : nullptr;
}
// instances are made first, asked next and started last, with the other invocations between
std::vector<Outcome> all(const std::vector<Item>& w) {
  std::vector<Outcome> got(w.size());
  std::vector<std::unique_ptr<eni::EniBase>> kept(w.size());
  for (size_t i = 0; i < w.size(); ++i) if (w[i].how & 1) kept[i].reset(make(w[i].op, w[i].text));
  for (size_t i = 0; i < w.size(); ++i) if (kept[i]) got[i].gas = kept[i]->getGas(); else got[i] = invoke(w[i].op, w[i].arg);
  for (size_t i = w.size(); i--;) if (kept[i]) { char* r = kept[i]->start(); if (r) { got[i].has = true; got[i].text = r; free(r); } }
  return got;
}
std::string inChild(std::vector<std::vector<Item>>& work) {
  std::vector<std::vector<Outcome>> got(work.size());
  std::map<std::string, char*> shared;
  for (auto& l : work) for (Item& w : l) {
    char*& s = shared[w.text]; if (!s) s = strdup(w.text.c_str());
    w.arg = w.how & 2 ? s : strdup(w.text.c_str());
  }
  std::atomic<int> ready(0); std::atomic<bool> go(false);
  std::vector<std::thread> ts;
  for (size_t t = 0; t < work.size(); ++t) ts.emplace_back([&, t] {
    ready.fetch_add(1); while (!go.load()) {}
    got[t] = all(work[t]);
  });
  while (ready.load() < (int)work.size()) {}
  go.store(true);
  for (auto& t : ts) t.join();
  for (size_t t = 0; t < work.size(); ++t) for (size_t i = 0; i < work[t].size(); ++i) {
    const Item& w = work[t][i];
    if (w.text != w.arg) return w.op + " changes its argument text " + jcmp::show(w.text);
    std::string fresh = w.text; Outcome alone = invoke(w.op, &fresh[0]), &o = got[t][i];
    if (o.gas != alone.gas || o.has != alone.has || o.text != alone.text)
      return "thread " + std::to_string(t) + ": " + w.op + " " + jcmp::show(w.text) + " gives gas " + std::to_string(o.gas) + " and " + (o.has ? jcmp::show(o.text) : "nothing") +
        ", alone gas " + std::to_string(alone.gas) + " and " + (alone.has ? jcmp::show(alone.text) : "nothing");
  }
  return "";
}
void check(const Case& c, Ctx& ctx) {
  std::vector<std::vector<Item>> work(4);
  std::set<std::string> used; size_t threads = 0;
  for (const Op& o : c) {
    const std::string& t = o.str(1); jref::V v; jref::Reader r(t, false);
    if (o.k != "call" || t.find('\0') != std::string::npos || !r.value(v) || r.wideEscape || !calls::inDomain(o.str(0), t)) continue;
    work[(u64)o.num(0) % 4].push_back({o.str(0), t, o.num(1), nullptr}); used.insert(o.str(0));
    if (o.num(1) & 1) used.insert("instance kept"); if (o.num(1) & 2) used.insert("text shared");
  }
  for (size_t i = work.size(); i--;) if (work[i].empty()) work.erase(work.begin() + i);
  threads = work.size();
  if (!threads) return;
  int p[2]; if (pipe(p)) fail("pipe");
  fflush(0);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]); dup2(p[1], 2); alarm(100);
    std::string why = inChild(work);
    if (!why.empty()) { why += "\n"; if (write(2, why.data(), why.size())) {} _exit(3); }
    _exit(0);
  }
  close(p[1]); std::string out; char buf[4096]; ssize_t n; while ((n = read(p[0], buf, sizeof buf)) > 0) if (out.size() < 20000) out.append(buf, n);
  close(p[0]); int st; waitpid(pid, &st, 0);
  PBT_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "concurrent invocations " << (WIFSIGNALED(st) ? "are killed by signal " + std::to_string(WTERMSIG(st)) : WEXITSTATUS(st) == 66 ? std::string("race") : "end with " + std::to_string(WEXITSTATUS(st))) << ": " << out.substr(0, 2500));
  for (auto& u : used) ctx.label(u);
  ctx.label(std::to_string(threads) + " threads");
  if (threads > 1) ctx.nontrivial = true;
}
Case gen(Src& s) {
  Case c; size_t n = 4 + s.below(9); bool same = s.p(30); Op first;
  for (size_t i = 0; i < n; ++i) {
    Op o;
    if (s.p(35)) {
      jref::GenOpt g; g.budget = 12; g.wsDensity = 0; g.rawControls = false; g.maxStr = 20; std::string t = "["; size_t k = s.below(4);
      for (size_t q = 0; q < k; ++q) { if (q) t += ","; jref::genValue(s, g, 0, 3, t); }
      o = Op("call", {}, {"walk", t + (s.rare(25) ? "] " : "]")});
    } else o = calls::gen(s, s.rare(25));
    if (same && i) o = first; else if (!i) first = o;
    o.n = {(i64)(i % 4), s.p(50) ? 0 : (i64)s.below(4)}; c.push_back(o);
  }
  return c;
}
const Property P = {"C12", "two to four threads, each with invocations of any operation (also the same call on all) and of an operation that copies, walks, indexes and changes its arguments, released together in a fresh process under ThreadSanitizer, some on one text shared by all, some on instances that are made, asked and started with the others between, "
  "then every invocation again alone; non-trivial: at least two threads", gen, check, [] { std::cerr.rdbuf(0); keys::pool(); }};
} // namespace
const Property& pbt::property() { return P; }
