// Locales with eight-bit letters: what is a letter there is not one in the library.
#pragma once
#include <clocale>
#include <cstdlib>
#include <locale.h>
#include <vector>
namespace locales {
// where there are none (no localedef), the list holds the standard locale alone
inline const std::vector<locale_t>& list() {
  static const std::vector<locale_t> v = [] {
    std::vector<locale_t> r; r.push_back(newlocale(LC_ALL_MASK, "C", (locale_t)0));
    if (const char* b = getenv("PBT_LOCALES")) setenv("LOCPATH", b, 1);
    for (const char* n : {"de_DE.ISO8859-1", "tr_TR.ISO8859-9"}) if (locale_t l = newlocale(LC_ALL_MASK, n, (locale_t)0)) r.push_back(l);
    return r;
  }();
  return v;
}
struct In {   // the calling thread's locale while this lives
  locale_t old;
  explicit In(unsigned long long i) : old(uselocale(list()[i % list().size()])) {}
  ~In() { uselocale(old); }
};
} // namespace locales
