// Operations as a user writes them, for C29: what they do is known from their arguments alone.
#include <eni.h>
#include <adt/HashTable.h>
#include <adt/StringMap.h>
#include <adt/Vector.h>
#include <json/Array.h>
#include <json/Object.h>
#include <json/Parser.h>
#include <sstream>
#include <stdexcept>

namespace {
class Base : public eni::EniBase {
public:
  Base(const std::string& t) : eni::EniBase(t) {}
protected:
  bool parse(const json::Array& a) override { m_Args = a; return !(a.size() == 1 && a[0].isBoolean() && !a[0].toBoolean()); }
  eni::Gas gas() const override { return 1000 + m_Args.size(); }
  json::Array m_Args;
};
// its arguments
class Echo : public Base { public: using Base::Base; bool run(json::Array& r) override { for (auto i = m_Args.begin(); i != m_Args.end(); ++i) r.push_back(*i); return true; } };
// the members of the first argument that the others name, through the constant access
class Pick : public Base { public: using Base::Base;
  bool run(json::Array& r) override {
    if (m_Args.empty()) return false;
    const json::Value& o = m_Args[0];
    for (size_t i = 1; i < m_Args.size(); ++i) { const json::Value& v = m_Args[i].isString() ? o[m_Args[i].toString()] : o[-1]; if (v.isUndefined()) r.push_back(json::Value("absent")); else r.push_back(v); }
    return true;
  }
};
// texts that are read and printed again, or refused, in the library itself
class Texts : public Base { public: using Base::Base;
  bool run(json::Array& r) override {
    for (size_t i = 0; i < m_Args.size(); ++i) {
      if (!m_Args[i].isString()) { r.push_back(json::Value(false)); continue; }
      json::Parser p(m_Args[i].toString());
      if (!p) { r.push_back(json::Value("refused")); continue; }
      std::ostringstream os; p.getRoot().print(os); r.push_back(json::Value(os.str()));
    }
    return true;
  }
};
// errors raised in one place and told apart in another
class Errors : public Base { public: using Base::Base;
  bool run(json::Array& r) override {
    eni::StringMap<int> m; eni::Vector<int> v; eni::HashTable<int, int, Hash> t;
    try { m.at("k"); } catch (const std::out_of_range&) { r.push_back(json::Value("out of range")); } catch (...) { r.push_back(json::Value("other")); }
    try { v.at(m_Args.size()); } catch (const eni::OutOfRange<eni::InvalidVectorIndex>&) { r.push_back(json::Value("index")); } catch (...) { r.push_back(json::Value("other")); }
    try { v.reserve((size_t)-1); } catch (const std::length_error&) { r.push_back(json::Value("length")); } catch (...) { r.push_back(json::Value("other")); }
    try { (void)*t.end(); } catch (const eni::LogicError<eni::InvalidIteratorEmpty>&) { r.push_back(json::Value("iterator")); } catch (...) { r.push_back(json::Value("other")); }
    json::Value x(true); json::Array a;
    try { x.delegate(a); } catch (const eni::LogicError<eni::InvalidDelegateAssigned>&) { r.push_back(json::Value("delegate")); } catch (...) { r.push_back(json::Value("other")); }
    return true;
  }
  struct Hash { unsigned operator()(int i) const { return (unsigned)i; } };
};
// the arguments under keys of their own, erased again, copied, and what is left of them
class Keep : public Base { public: using Base::Base;
  bool run(json::Array& r) override {
    json::Object o; size_t n = m_Args.size();
    for (size_t i = 0; i < n; ++i) o["k" + std::to_string(i)] = m_Args[i];
    for (size_t i = 0; i < n; i += 2) o.erase("k" + std::to_string(i));
    for (size_t i = 0; i < 40; ++i) { o["x" + std::to_string(i)] = json::Value(1); o.erase("x" + std::to_string(i)); }
    json::Object c(o); c["last"] = json::Value((int)c.size()); json::Value v(c), w; w = v;
    r.push_back(w);
    return true;
  }
};
// no: the library answers for itself
class Refuse : public Base { public: using Base::Base; bool run(json::Array& r) override { r.push_back(json::Value("never")); return false; } };
// which library this is
class Who : public Base { public: using Base::Base; bool run(json::Array& r) override { r.push_back(json::Value(TAG)); return true; } };
} // namespace
ENI_C_INTERFACE(echo, Echo)
ENI_C_INTERFACE(pick, Pick)
ENI_C_INTERFACE(texts, Texts)
ENI_C_INTERFACE(errors, Errors)
ENI_C_INTERFACE(keep, Keep)
ENI_C_INTERFACE(refuse, Refuse)
ENI_C_INTERFACE(who, Who)
