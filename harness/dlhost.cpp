// Loads, unloads and invokes operation libraries as it is told on descriptor 3; outcomes go to 4.
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <functional>
#include <mutex>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
#ifdef LINKED   // a program that uses the library itself as well
#include <eni.h>
#include <json/Array.h>
#include <json/Object.h>
#include <json/Parser.h>
#include <sstream>
class Own : public eni::EniBase {
public:
  Own(const std::string& t) : eni::EniBase(t) {}
  bool parse(const json::Array& a) override { m_A = a; return true; }
  eni::Gas gas() const override { return 5; }
  bool run(json::Array& r) override { r.push_back(json::Value(m_A)); return true; }
  json::Array m_A;
};
#endif
typedef char* (*Run)(char*); typedef uint64_t* (*Gas)(char*);
static void all(int fd, void* p, size_t n, bool wr) { char* c = (char*)p; while (n) { ssize_t r = wr ? write(fd, c, n) : read(fd, c, n); if (r <= 0) exit(0); c += r; n -= r; } }
static std::string get() { uint32_t n; all(3, &n, 4, false); std::string s(n, 0); all(3, &s[0], n, false); return s; }
static void put(const std::string& s) { uint32_t n = s.size(); all(4, &n, 4, true); all(4, const_cast<char*>(s.data()), n, true); }
// a thread that is kept until it is told to end
struct Kept {
  std::mutex m; std::condition_variable c; std::function<void()> job; bool busy = false, over = false; std::thread t;
  Kept() : t([this] { std::unique_lock<std::mutex> l(m); for (;;) { c.wait(l, [this] { return busy || over; }); if (!busy) return; job(); busy = false; c.notify_all(); } }) {}
  void run(const std::function<void()>& f) { std::unique_lock<std::mutex> l(m); job = f; busy = true; c.notify_all(); c.wait(l, [this] { return !busy; }); }
  ~Kept() { { std::unique_lock<std::mutex> l(m); over = true; c.notify_all(); } t.join(); }
};
int main() {
  void* h[8] = {}; Kept* kept[2] = {};
  for (;;) {
    std::string cmd = get(), op = get(), text = get(), out; int slot = cmd[1] & 7, on = (unsigned char)cmd[3] % 4;   // on the main thread, one of its own, or a kept one
    auto at = [&](const std::function<void()>& f) { if (on == 0) f(); else if (on == 1) std::thread(f).join(); else { Kept*& k = kept[on - 2]; if (!k) k = new Kept; k->run(f); } };
    if (cmd[0] == 'L') at([&] {
      if (h[slot]) dlclose(h[slot]);
      static const int f[] = {RTLD_NOW, RTLD_LAZY, RTLD_NOW | RTLD_GLOBAL, RTLD_LAZY | RTLD_GLOBAL, RTLD_LAZY | RTLD_GLOBAL | RTLD_NODELETE, RTLD_NOW | RTLD_NODELETE};
      h[slot] = dlopen(text.c_str(), f[(unsigned char)cmd[2] % 6]); out = h[slot] ? "loaded" : dlerror();
    });
    else if (cmd[0] == 'U') { at([&] { if (h[slot]) dlclose(h[slot]); h[slot] = 0; }); out = "unloaded"; }
    else if (cmd[0] == 'E') { Kept*& k = kept[slot & 1]; delete k; k = 0; out = "ended"; }
    else if (cmd[0] == 'C') {
      std::string full = op + "_run", gname = op + "_gas"; Run r = h[slot] ? (Run)dlsym(h[slot], full.c_str()) : 0; Gas g = h[slot] ? (Gas)dlsym(h[slot], gname.c_str()) : 0;
      if (!r || !g) out = "no such operation";
      else {
        auto go = [&] {
          std::vector<char> b(text.begin(), text.end()); b.push_back(0);
          uint64_t* q = g(b.data()); out = q ? std::to_string((unsigned long long)*q) : "no gas"; free(q);
          char* t = r(b.data()); out += t ? std::string("|+") + t : "|-"; free(t);
        };
        at(go);
      }
    }
#ifdef LINKED
    else if (cmd[0] == 'P') at([&] { json::Parser p(text); std::ostringstream os; if (p) p.getRoot().print(os); out = p ? "+" + os.str() : "refused"; });
    else if (cmd[0] == 'O') at([&] { Own o(text); char* t = o.start(); out = t ? std::string("+") + t : "-"; free(t); });
#endif
    else out = "?";
    put(out);
  }
}
