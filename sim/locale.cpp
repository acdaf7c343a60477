// Process locales the simulator switches to.
#include <locale.h>
#include <stdlib.h>
#include <locale>
#include <unicode/uloc.h>
#include "world.h"

namespace {
struct L { const char* name; std::function<bool()> make; std::function<void()> apply; bool ok; };
std::vector<L> all;
std::vector<int> usable;

struct Punct : std::numpunct<char> {
  char do_decimal_point() const override { return ','; }
  char do_thousands_sep() const override { return '.'; }
  std::string do_grouping() const override { return "\1"; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
};
struct WPunct : std::numpunct<wchar_t> {
  wchar_t do_decimal_point() const override { return L','; }
  wchar_t do_thousands_sep() const override { return L'.'; }
  std::string do_grouping() const override { return "\1"; }
};
// letters, digits and spaces are something else here
struct Ctype : std::ctype<char> {
  static const mask* table() {
    static mask t[table_size];
    static bool once;
    if (!once) {
      for (size_t i = 0; i < table_size; i++) t[i] = classic_table()[i];
      for (char c : {'a', 'i', 'I', 'e', '#', '1', '.'}) t[(unsigned char)c] = space | print;
      t[(unsigned char)' '] = alpha | print | lower;
      t[(unsigned char)'_'] = punct | print;
      once = true;
    }
    return t;
  }
  Ctype() : std::ctype<char>(table()) {}
  char do_tolower(char c) const override { return c == 'I' ? 'j' : c >= 'A' && c <= 'Z' ? c + 1 : c; }
  char do_toupper(char c) const override { return c == 'i' ? 'J' : c; }
  const char* do_tolower(char* b, const char* e) const override { for (; b < e; ++b) *b = do_tolower(*b); return e; }
  const char* do_toupper(char* b, const char* e) const override { for (; b < e; ++b) *b = do_toupper(*b); return e; }
};
struct WCtype : std::ctype<wchar_t> {
  bool do_is(mask m, wchar_t c) const override {
    if (c == L' ' || c == L'\t') return (m & alpha) != 0;
    if (c == L'e' || c == L'a') return (m & space) != 0;
    return std::ctype<wchar_t>::do_is(m, c);
  }
  wchar_t do_tolower(wchar_t c) const override { return c == L'I' ? 0x131 : std::ctype<wchar_t>::do_tolower(c); }
};
std::locale custom[8];

bool c_locale(const char* n) { bool ok = setlocale(LC_ALL, n) != nullptr; setlocale(LC_ALL, "C"); return ok; }
bool cpp_locale(const char* n, int slot) {
  try { custom[slot] = std::locale(n); return true; } catch (...) { return false; }
}
void reset() { std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); }
}  // namespace

void locale_init() {
  all = {
      {"C", [] { return true; }, [] { reset(); }, false},
      {"C locale C.UTF-8", [] { return c_locale("C.UTF-8"); }, [] { reset(); setlocale(LC_ALL, "C.UTF-8"); }, false},
      {"C locale tr_TR.UTF-8", [] { return c_locale("tr_TR.UTF-8"); }, [] { reset(); setlocale(LC_ALL, "tr_TR.UTF-8"); }, false},
      {"C locale de_DE.UTF-8", [] { return c_locale("de_DE.UTF-8"); }, [] { reset(); setlocale(LC_ALL, "de_DE.UTF-8"); }, false},
      {"C locale tr_TR.ISO-8859-9", [] { return c_locale("tr_TR.ISO-8859-9"); }, [] { reset(); setlocale(LC_ALL, "tr_TR.ISO-8859-9"); }, false},
      {"C++ and C locale tr_TR.UTF-8", [] { return cpp_locale("tr_TR.UTF-8", 0); }, [] { reset(); std::locale::global(custom[0]); }, false},
      {"C++ and C locale de_DE.UTF-8", [] { return cpp_locale("de_DE.UTF-8", 1); }, [] { reset(); std::locale::global(custom[1]); }, false},
      {"C++ locale with own number punctuation", [] { custom[2] = std::locale(std::locale(std::locale::classic(), new Punct), new WPunct); return true; }, [] { reset(); std::locale::global(custom[2]); }, false},
      {"C++ locale with own character classes", [] { custom[3] = std::locale(std::locale::classic(), new Ctype); return true; }, [] { reset(); std::locale::global(custom[3]); }, false},
      {"C++ locale with own wide character classes", [] { custom[4] = std::locale(std::locale::classic(), new WCtype); return true; }, [] { reset(); std::locale::global(custom[4]); }, false},
      {"C locale C.UTF-8 with own character classes and punctuation", [] { custom[5] = std::locale(std::locale(std::locale(std::locale::classic(), new Ctype), new WCtype), new Punct); return c_locale("C.UTF-8"); },
       [] { reset(); std::locale::global(custom[5]); setlocale(LC_ALL, "C.UTF-8"); }, false},
  };
  for (size_t i = 0; i < all.size(); i++) {
    all[i].ok = all[i].make();
    if (all[i].ok) usable.push_back((int)i);
  }
  reset();
}
int locale_count() { return (int)usable.size(); }
void locale_apply(int i, bool icu) {
  rt::Pause p;
  const L& l = all[usable[i % usable.size()]];
  l.apply();
  if (icu) {   // as in a process that uses ICU for the first time in this locale
    std::string n = l.name;
    UErrorCode e = U_ZERO_ERROR;
    uloc_setDefault(n.find("tr_TR") != n.npos ? "tr_TR" : n.find("de_DE") != n.npos ? "de_DE" : "en_US_POSIX", &e);
  }
}
const char* locale_name(int i) { return usable.empty() ? "?" : all[usable[i % usable.size()]].name; }
