// Executable statement of C13: the list with a hidden last element against a
// plain vector, with iterators held across every operation.
#include "common.hh"
#include "flpr/Safe_List.hh"

using namespace hz;

namespace {
// an element that knows how it got its value
struct V {
  int v = 0;
  V() = default;
  V(int x) : v(x) {}
  bool operator==(V const &o) const { return v == o.v; }
};
using L = FLPR::Safe_List<V>;

struct World {
  L l;
  std::vector<int> ref;
  std::vector<L::iterator> its; // to each element
  L::iterator end_;

  World() : end_(l.end()) {}
  void rebind() {
    its.clear();
    size_t k = 0;
    for (auto it = l.begin(); k < ref.size(); ++it, ++k)
      its.push_back(it);
    end_ = l.end();
  }
  void check() {
    L const &c = l;
    eq("size", (long)c.size(), (long)ref.size());
    eq("emptiness", c.empty(), ref.empty());
    ok("a stored end stays the end",
       end_ == l.end() && end_ == c.end() && end_ == c.cend());
    eq("number of steps to the end", (long)std::distance(c.begin(), c.end()),
       (long)ref.size());
    ok("the begins agree", l.begin() == c.begin() && c.begin() == c.cbegin());
    size_t k = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++k) {
      eq("element", (long)it->v, (long)ref[k]);
      ok("a stored position stays at its element", its[k] == it);
    }
    if (!ref.empty()) {
      eq("front", l.front().v, ref.front());
      eq("front (const)", c.front().v, ref.front());
      eq("back", l.back().v, ref.back());
      eq("back (const)", c.back().v, ref.back());
    }
  }
};

// i: groups of three: operation, two numbers
void c13(Case const &c) {
  World w;
  w.check();
  for (size_t k = 0; k + 2 < c.i.size(); k += 3) {
    long n = (long)w.ref.size();
    long p = c.i[k + 1], v = c.i[k + 2];
    auto at = [&](long x) { return x < n ? w.its[(size_t)x] : w.end_; };
    auto in = [&](long lo, long hi) {
      if (p < lo || p > hi)
        throw Skip();
    };
    auto put = [&](long x, L::iterator it, int val) {
      ok("the position of the new element", it->v == val);
      w.ref.insert(w.ref.begin() + x, val);
      w.its.insert(w.its.begin() + x, it);
    };
    int val = (int)v;
    switch (c.i[k]) {
    case 0: {
      V x(val);
      w.l.push_back(x);
      put(n, std::prev(w.l.end()), val);
      break;
    }
    case 1:
      w.l.push_back(V(val));
      put(n, std::prev(w.l.end()), val);
      break;
    case 2: {
      auto &x = w.l.emplace_back(val);
      ok("a reference to the new element", &x == &*std::prev(w.l.end()));
      put(n, std::prev(w.l.end()), val);
      break;
    }
    case 3: {
      auto &x = w.l.emplace_front(val);
      ok("a reference to the new element", &x == &*w.l.begin());
      put(0, w.l.begin(), val);
      break;
    }
    case 4: {
      in(0, n);
      V x(val);
      put(p, w.l.insert(at(p), x), val);
      break;
    }
    case 5:
      in(0, n);
      put(p, w.l.insert(at(p), V(val)), val);
      break;
    case 6:
      in(0, n);
      put(p, w.l.emplace(at(p), val), val);
      break;
    case 7: {
      in(0, n);
      std::vector<V> s;
      for (long x = 0; x < v; ++x)
        s.push_back(V((int)(50 + x)));
      auto it = w.l.insert(at(p), s.begin(), s.end());
      if (s.empty())
        ok("inserting nothing stays there", it == at(p));
      for (long x = 0; x < v; ++x, ++it)
        put(p + x, it, (int)(50 + x));
      break;
    }
    case 8: {
      in(0, n - 1);
      auto it = w.l.erase(at(p));
      ok("the position after the removed one", it == at(p + 1));
      w.ref.erase(w.ref.begin() + p);
      w.its.erase(w.its.begin() + p);
      break;
    }
    case 9: {
      in(0, n);
      if (v < p || v > n)
        throw Skip();
      auto it = w.l.erase(at(p), at(v));
      ok("the position after the removed ones", it == at(v));
      w.ref.erase(w.ref.begin() + p, w.ref.begin() + v);
      w.its.erase(w.its.begin() + p, w.its.begin() + v);
      break;
    }
    case 10:
      if (!n)
        throw Skip();
      w.l.pop_back();
      w.ref.pop_back();
      w.its.pop_back();
      break;
    case 11: {
      w.l.remove_if([&](V const &x) { return x.v == val; });
      for (size_t x = 0; x < w.ref.size();)
        if (w.ref[x] == val) {
          w.ref.erase(w.ref.begin() + (long)x);
          w.its.erase(w.its.begin() + (long)x);
        } else
          ++x;
      break;
    }
    case 12:
      w.l.clear();
      w.ref.clear();
      w.rebind();
      break;
    case 13: {
      L d(w.l);
      ok("a copy is equal", d == w.l);
      d.push_back(V(9));
      ok("a longer list differs", !(d == w.l));
      w.check(); // the original is not disturbed
      d.pop_back();
      // assigned to lists of every size, with other elements
      for (long x = 0; x <= n + 2; ++x) {
        L e((size_t)x, V(99));
        e = d;
        ok("an assigned list is equal", e == d && e.size() == (size_t)n);
        e.push_back(V(98));
        ok("an assigned list is independent", d == w.l);
      }
      w.l = d;
      w.rebind();
      break;
    }
    case 14: {
      L d(std::move(w.l));
      w.l = L((size_t)v, V(97));
      w.l = std::move(d);
      L &self = w.l;
      w.l = std::move(self);
      w.rebind();
      break;
    }
    case 15:
      if (v < 0 || v > 20)
        throw Skip();
      w.l = L((size_t)p, V(val));
      w.ref.assign((size_t)p, val);
      w.rebind();
      w.check();
      ok("default elements", L((size_t)p) == L((size_t)p, V()));
      ok("listed elements", L({V(1), V(2)}).size() == 2);
      break;
    default:
      throw Skip();
    }
    w.check();
  }
}

void en(std::function<void(Case const &)> const &f) {
  std::vector<std::vector<long>> ops = {
      {0, 0, 1},  {1, 0, 0},  {2, 0, 2},  {3, 0, 3},  {4, 0, 4},  {4, 1, 4},
      {5, 0, 5},  {5, 1, 0},  {6, 0, 6},  {6, 2, 6},  {7, 0, 2},  {7, 1, 1},
      {7, 1, 0},  {8, 0, 0},  {8, 1, 0},  {9, 0, 0},  {9, 0, 1},  {9, 0, 2},
      {9, 1, 2},  {10, 0, 0}, {11, 0, 0}, {11, 0, 1}, {12, 0, 0}, {13, 0, 0},
      {14, 0, 0}, {15, 2, 0}, {15, 0, 1}};
  for (size_t a = 0; a < ops.size(); ++a)
    for (size_t b = 0; b < ops.size(); ++b)
      for (size_t d = 0; d < ops.size(); ++d) {
        Case c;
        for (size_t x : {a, b, d})
          c.i.insert(c.i.end(), ops[x].begin(), ops[x].end());
        f(c);
      }
}
Case rnd(Rng &r) {
  Case c;
  int k = r.range(1, 25);
  while (k--) {
    c.i.push_back(r.chance(40) ? r.below(8) : r.below(16));
    c.i.push_back(r.below(6));
    c.i.push_back(r.below(5));
  }
  return c;
}
} // namespace

int main(int argc, char **argv) {
  props()["C13"] = {c13, en, rnd,
                    "every history of 3 of 27 operations, then random "
                    "histories of up to 25 operations"};
  return run(argc, argv);
}
