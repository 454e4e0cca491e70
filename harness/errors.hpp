// Errors the project documents: of which standard kind, and saying something.
#pragma once
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include "pbt.hpp"

namespace errors {
// what() of an error, which must be readable, not empty, and the same every time
inline void readable(const std::exception& e, const std::string& op) {
  std::string a = e.what(), b = e.what();
  PBT_CHECK(!a.empty() && a == b, op << ": the error says '" << a << "', then '" << b << "'");
}
// f must raise an error of kind E, and of no other
template<class E, class F> void raises(F f, const std::string& op) {
  bool threw = false;
  try { f(); } catch (const E& e) { threw = true; readable(e, op); }
  PBT_CHECK(threw, op << ": no error is raised");
}
} // namespace errors
