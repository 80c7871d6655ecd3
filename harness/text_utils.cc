// Executable statement of C23: text utilities.
#include "common.hh"
#include "flpr/utils.hh"

using namespace hz;

namespace {
std::string backs(std::string const &s, char const *set) {
  size_t n = s.size();
  while (n > 0 && strchr(set, s[n - 1]) && s[n - 1])
    --n;
  return s.substr(0, n);
}

void c23(Case const &c) {
  if (c.s.size() != 1)
    throw Skip();
  std::string const &s = c.s[0];
  std::string x = s;
  FLPR::tolower(x);
  std::string y = s;
  FLPR::toupper(y);
  eq("length of lower case", (long)x.size(), (long)s.size());
  eq("length of upper case", (long)y.size(), (long)s.size());
  for (size_t k = 0; k < s.size(); ++k) {
    char ch = s[k];
    eq("lower case", x[k],
       ch >= 'A' && ch <= 'Z' ? (char)(ch - 'A' + 'a') : ch);
    eq("upper case", y[k],
       ch >= 'a' && ch <= 'z' ? (char)(ch - 'a' + 'A') : ch);
  }
  std::string b = backs(s, " \t");
  eq("without trailing blanks", FLPR::trim_back_copy(s), b);
  std::string m = s;
  FLPR::trim_back(m);
  eq("without trailing blanks, in place", m, b);
  eq("last non-blank character", FLPR::last_non_blank_char(s),
     b.empty() ? '\0' : b.back());
  std::string t = backs(s, " \t\n\v\f\r");
  size_t k = 0;
  while (k < t.size() && strchr(" \t\n\v\f\r", t[k]) && t[k])
    ++k;
  eq("without outer white space", FLPR::trim(s), t.substr(k));
  for (char d : {',', 'a', ' '}) {
    std::vector<std::string> got{"kept"}, want{"kept"};
    FLPR::simple_tokenize(s, got, d);
    std::string cur;
    for (char ch : s + std::string(1, d)) {
      if (ch == d) {
        if (!cur.empty())
          want.push_back(cur);
        cur.clear();
      } else
        cur += ch;
    }
    eq("number of pieces", (long)got.size(), (long)want.size());
    for (size_t n = 0; n < got.size(); ++n)
      eq("piece", got[n], want[n]);
  }
}

void en(std::function<void(Case const &)> const &f) {
  static char const A[] = {' ', '\t', 'a', 'Z', ',', '\n', '\r', '\v',
                           '\f', '\0', '\xe9', '@', '[', '`', '{'};
  int const N = sizeof A;
  for (int n = 0; n <= 4; ++n) {
    long total = 1;
    for (int k = 0; k < n; ++k)
      total *= n == 4 ? 9 : N;
    for (long v = 0; v < total; ++v) {
      Case c;
      std::string s;
      long x = v;
      for (int k = 0; k < n; ++k, x /= (n == 4 ? 9 : N))
        s += A[x % (n == 4 ? 9 : N)];
      c.s.push_back(s);
      f(c);
    }
  }
  for (int b = 0; b < 256; ++b) {
    Case c;
    c.s.push_back(std::string(1, (char)b) + "q" + (char)b);
    f(c);
  }
}
Case rnd(Rng &r) {
  Case c;
  std::string s;
  int n = r.range(0, 24);
  for (int k = 0; k < n; ++k)
    s += r.chance(50) ? " \t,aZ"[r.below(5)] : (char)r.below(256);
  c.s.push_back(s);
  return c;
}
} // namespace

int main(int argc, char **argv) {
  props()["C23"] = {c23, en, rnd,
                    "every string of up to 3 of 15 characters (4 of 9), every "
                    "byte, then random byte strings"};
  return run(argc, argv);
}
