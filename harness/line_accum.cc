// Executable statement of C09: offsets of scanner text <-> line and column.
#include "common.hh"
#include "flpr/Line_Accum.hh"

using FLPR::Line_Accum;
using namespace hz;

namespace {
// case: one text per line; per line the integers lineno, left, col, right
struct Ref {
  size_t start;
  int line, col;
};

void c09(Case const &c) {
  if (c.i.size() < 4 * c.s.size())
    throw Skip();
  Line_Accum a;
  std::string want;
  std::vector<Ref> ref;
  int l = -7, k = -7, tl = -7, tc = -7;
  eq("an empty accumulator has no position", a.linecolno(0, l, k), false);
  eq("an empty accumulator has no position", a.linecolno(0, l, k, tl, tc),
     false);
  ok("outputs untouched without an answer",
     l == -7 && k == -7 && tl == -7 && tc == -7);
  for (size_t n = 0; n < c.s.size(); ++n) {
    long line = c.i[4 * n], left = c.i[4 * n + 1], col = c.i[4 * n + 2],
         right = c.i[4 * n + 3];
    if (col < 1 || col > 100000 || std::abs(line) > 1000000 || left < 0 ||
        right < 0 || left > 1000000 || right > 1000000)
      throw Skip();
    if (n > 0 && left > 0)
      want += ' ';
    ref.push_back(Ref{want.size(), (int)line, (int)col});
    want += c.s[n];
    if (right > 0)
      want += ' ';
    a.add_line((int)line, (int)left, (int)col, c.s[n], (int)right);
    eq("accumulated text", a.accum(), want);
    for (int off = 0; off <= (int)want.size() + 1; ++off) {
      size_t o = ref.size() - 1;
      while (o > 0 && ref[o].start > (size_t)off)
        --o;
      int l1 = -1, c1 = -1, l2 = -1, c2 = -1, t = -1, u = -1;
      Line_Accum const &ca = a;
      ok("a position exists", ca.linecolno(off, l1, c1));
      ok("a position exists", ca.linecolno(off, l2, c2, t, u));
      int in = off - (int)ref[o].start;
      std::string w = " of offset " + std::to_string(off);
      eq(("line" + w).c_str(), l1, ref[o].line);
      eq(("column" + w).c_str(), c1, ref[o].col + in);
      eq(("line" + w).c_str(), l2, ref[o].line);
      eq(("column" + w).c_str(), c2, ref[o].col + in);
      eq(("text line" + w).c_str(), t, (int)o);
      eq(("text column" + w).c_str(), u, in);
      if (in < (int)c.s[o].size())
        eq(("character" + w).c_str(), want[(size_t)off], c.s[o][(size_t)in]);
    }
  }
}

void en(std::function<void(Case const &)> const &f) {
  for (int n = 1; n <= 4; ++n) {
    int combos = 1;
    for (int k = 0; k < n; ++k)
      combos *= n < 4 ? 12 : 4;
    for (int v = 0; v < combos; ++v) {
      Case c;
      int x = v;
      for (int k = 0; k < n; ++k) {
        int d = x % (n < 4 ? 12 : 4);
        x /= (n < 4 ? 12 : 4);
        static char const *T[] = {"", "a", "bcd"};
        c.s.push_back(T[n < 4 ? d / 4 : d % 3]);
        c.i.push_back(10 + 3 * k);
        c.i.push_back(d & 1);
        c.i.push_back(k % 2 ? 7 : 1);
        c.i.push_back((d >> 1) & 1);
      }
      f(c);
    }
  }
}
Case rnd(Rng &r) {
  Case c;
  int n = r.range(1, 9);
  for (int k = 0; k < n; ++k) {
    c.s.push_back(std::string((size_t)r.pick(std::vector<int>{0, 0, 1, 2, 5, 17}),
                              (char)('a' + k)));
    c.i.push_back(r.range(-2, 40));
    c.i.push_back(r.chance(50) ? 0 : r.range(1, 9));
    c.i.push_back(r.range(1, 80));
    c.i.push_back(r.chance(50) ? 0 : r.range(1, 9));
  }
  return c;
}
} // namespace

int main(int argc, char **argv) {
  props()["C09"] = {c09, en, rnd,
                    "every sequence of up to 3 lines over 3 texts x spaces "
                    "left/right (and a sample of 4), every offset; then "
                    "random sequences of up to 9 lines"};
  return run(argc, argv);
}
