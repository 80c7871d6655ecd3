// Executable statement of C14: ranges over a list, with a reference that is a
// pair of positions.
#include "common.hh"
#include "flpr/LL_TT_Range.hh"
#include "flpr/Logical_Line.hh"

using namespace FLPR;
using namespace hz;
using L = Safe_List<int>;
using Range = SL_Range<int>;
using CRange = SL_Const_Range<int>;

namespace {
struct Ref {
  bool bad = true;
  long b = 0, e = 0;
  bool empty() const { return bad || b == e; }
};

struct World {
  L list;
  Range r[2];
  Ref q[2];
  explicit World(long n) {
    for (long k = 0; k < n; ++k)
      list.push_back((int)(100 + k));
  }
  L::iterator at(long k) { return std::next(list.begin(), k); }
  long pos(L::const_iterator x) {
    return (long)std::distance(list.cbegin(), x);
  }
  void observe(int w) {
    Range &a = r[w];
    Range const &c = a;
    Ref const &x = q[w];
    eq("is it empty", c.empty(), x.empty());
    eq("number of elements", (long)c.size(), x.bad ? 0 : x.e - x.b);
    if (x.bad)
      return;
    eq("first position", pos(a.begin()), x.b);
    eq("first position (const)", pos(c.begin()), x.b);
    eq("first position (c)", pos(c.cbegin()), x.b);
    eq("end position", pos(a.end()), x.e);
    eq("end position (const)", pos(c.end()), x.e);
    eq("end position (c)", pos(c.cend()), x.e);
    if (!x.empty()) {
      eq("last position", pos(a.last()), x.e - 1);
      eq("last position (const)", pos(c.last()), x.e - 1);
      eq("first element", a.front(), (int)(100 + x.b));
      eq("first element (const)", c.front(), (int)(100 + x.b));
      eq("last element", a.back(), (int)(99 + x.e));
      eq("last element (const)", c.back(), (int)(99 + x.e));
    }
    CRange k(c.begin(), c.end());
    eq("const range: empty", k.empty(), x.empty());
    eq("const range: size", (long)k.size(), x.e - x.b);
    eq("const range: begin", pos(k.begin()), x.b);
    eq("const range: end", pos(k.end()), x.e);
    if (!x.empty()) {
      eq("const range: front", k.front(), (int)(100 + x.b));
      eq("const range: back", k.back(), (int)(99 + x.e));
      eq("const range: last", pos(k.last()), x.e - 1);
    }
    SL_Range_Iterator<int> it(a);
    for (long p = x.b; p < x.e; ++p) {
      ok("the walk is not over before the end", bool(it) && !!it);
      eq("position of the walk", pos(it.iter()), p);
      eq("element of the walk", *it, (int)(100 + p));
      eq("is there another", it.advance(), p + 1 < x.e);
    }
    ok("the walk is over at the end", !bool(it) && !it);
    ok("the walk stays at the end", !it.advance() && !bool(it));
    L copy(list);
    Range z = rebase<int>(list.cbegin(), c, copy.begin());
    eq("range over the copy: start",
       (long)std::distance(copy.begin(), z.begin()), x.b);
    eq("range over the copy: end", (long)std::distance(copy.begin(), z.end()),
       x.e);
    eq("range over the copy: size", (long)z.size(), x.e - x.b);
  }
};

// i: list size, then groups of three: operation + 16 * which, two positions
void c14(Case const &c) {
  if (c.i.empty() || c.i[0] < 0 || c.i[0] > 50)
    throw Skip();
  long n = c.i[0];
  World w(n);
  for (size_t k = 1; k + 2 < c.i.size(); k += 3) {
    long op = c.i[k] & 15, p = c.i[k + 1], e = c.i[k + 2];
    int me = (c.i[k] >> 4) & 1, you = 1 - me;
    if (p < 0 || e < 0 || p > n || e > n)
      throw Skip();
    Range &r = w.r[me];
    Ref &x = w.q[me], &y = w.q[you];
    switch (op) {
    case 0:
      if (p > e)
        throw Skip();
      r = Range(w.at(p), w.at(e));
      x = Ref{false, p, e};
      break;
    case 1:
      if (p >= n)
        throw Skip();
      r = Range(w.at(p));
      x = Ref{false, p, p + 1};
      break;
    case 2:
      r.clear();
      x.bad = true;
      break;
    case 3:
      r.clear(w.at(p));
      x = Ref{false, p, p};
      break;
    case 4:
      if (!y.empty() && !x.empty() && x.e != y.b && x.e != y.e)
        throw Skip();
      r.push_back(w.r[you]);
      if (!y.empty()) {
        if (x.empty())
          x = y;
        else if (x.e != y.e)
          x.e = y.e;
      }
      break;
    case 5:
      if (!y.empty() && !x.empty() && x.b != y.e && x.b != y.b)
        throw Skip();
      r.push_front(w.r[you]);
      if (!y.empty()) {
        if (x.empty())
          x = y;
        else if (x.b != y.b)
          x.b = y.b;
      }
      break;
    case 6:
      r.assign_range(w.r[you]);
      x = y;
      break;
    case 7:
      r.assign_range(Range(w.list));
      x = Ref{false, 0, n};
      break;
    default:
      throw Skip();
    }
    for (int a = 0; a < 2; ++a) {
      w.observe(a);
      for (int b = 0; b < 2; ++b) {
        Ref &s = w.q[a], &t = w.q[b];
        eq("do the two cover the same", w.r[a].equal(w.r[b]),
           s.bad == t.bad && (s.bad || (s.b == t.b && s.e == t.e)));
      }
    }
  }
  // the whole list, and the range of one line's tokens
  eq("size of the whole list", (long)CRange(w.list).size(), n);
  SL_Range_Iterator<int> all(w.list);
  long k = 0;
  for (; all; all.advance())
    ++k;
  eq("elements of the whole list", k, n);
  LL_SEQ lines;
  lines.emplace_back();
  lines.emplace_back();
  TT_SEQ toks;
  for (long t = 0; t < n; ++t)
    toks.push_back(Token_Text("x", 1, (int)(7 + t), (int)(3 + t)));
  for (long p = 0; p <= n; ++p) {
    LL_TT_Range a(lines.begin(), std::next(toks.begin(), p), toks.end());
    eq("line of the first token", a.linenum(), p < n ? (int)(7 + p) : -1);
    eq("column of the first token", a.colnum(), p < n ? (int)(3 + p) : -1);
    ok("the line set", a.it() == lines.begin());
    LL_TT_Range b(std::next(lines.begin()), std::next(toks.begin(), p),
                  toks.end());
    ok("a range of another line differs", !a.equal(b));
    b.set_it(lines.begin());
    ok("the same tokens of the same line", a.equal(b) && b.it() == a.it());
  }
}

void en(std::function<void(Case const &)> const &f) {
  for (long n = 0; n <= 3; ++n) {
    std::vector<std::vector<long>> ops;
    for (long me = 0; me < 2; ++me)
      for (long op = 0; op < 8; ++op)
        for (long p = 0; p <= n; ++p)
          for (long e = p; e <= n; ++e) {
            if (op > 3 && (p || e))
              continue;
            if ((op == 1 || op == 3) && e != p)
              continue;
            if (op == 2 && (p || e))
              continue;
            ops.push_back({op + 16 * me, p, e});
          }
    for (auto const &a : ops)
      for (auto const &b : ops) {
        Case c;
        c.i = {n, a[0], a[1], a[2], b[0], b[1], b[2]};
        f(c);
        if (n == 2)
          for (auto const &d : ops) {
            Case g = c;
            g.i.insert(g.i.end(), d.begin(), d.end());
            f(g);
          }
      }
  }
}
Case rnd(Rng &r) {
  Case c;
  long n = r.range(1, 12);
  c.i = {n};
  int k = r.range(1, 12);
  while (k--) {
    long p = r.range(0, (int)n), e = r.range((int)p, (int)n);
    c.i.push_back(r.below(8) + 16 * r.below(2));
    c.i.push_back(p);
    c.i.push_back(e);
  }
  return c;
}
} // namespace

int main(int argc, char **argv) {
  props()["C14"] = {c14, en, rnd,
                    "every history of 2 operations on two ranges over lists "
                    "of up to 3 elements (3 operations over 2 elements), "
                    "then random histories over up to 12"};
  return run(argc, argv);
}
