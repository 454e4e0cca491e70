// For the lifetime of an object, what is asked for outside the arguments has other answers: see timeshift.cpp.
#pragma once
#include <cerrno>
#include <cstdlib>
#include <locale>
extern "C" { void pbt_inside(int); int pbt_isInside(); }
// how a country might write numbers and truth
struct Country : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\1"; }
  std::string do_truename() const override { return "ja"; }
  std::string do_falsename() const override { return "nein"; }
};
struct Elsewhere {
  static const std::locale& country() { static const std::locale l(std::locale::classic(), new Country); return l; }
  explicit Elsewhere(bool on) : m_On(on && !pbt_isInside()) { if (m_On) { srand(4711); errno = ERANGE; m_Was = std::locale::global(country()); pbt_inside(1); } }
  ~Elsewhere() { if (m_On) { pbt_inside(0); std::locale::global(m_Was); } }
  Elsewhere(const Elsewhere&) = delete;
  bool m_On; std::locale m_Was;
};
