// Executable statement of C17: nesting levels of shared loop labels.
#include "common.hh"
#include "flpr/Label_Stack.hh"

using FLPR::Label_Stack;
using namespace hz;

namespace {
// case: operations; v >= 0 pushes the label v, -1 pops, -2-k queries label k
struct E {
  int label, level;
};

void c17(Case const &c) {
  Label_Stack a;
  std::vector<E> ref;
  for (long op : c.i) {
    if (op >= 0) {
      a.push((int)op);
      ref.push_back(E{(int)op, -1});
    } else if (op == -1) {
      if (ref.empty())
        throw Skip();
      a.pop();
      ref.pop_back();
    } else {
      int l = (int)(-2 - op);
      int want = -1;
      bool top = !ref.empty() && ref.back().label == l;
      eq("is the label on top", a.is_top(l), top);
      if (top) {
        if (ref.back().level == -1) {
          // number the run of this label, outermost first
          size_t s = ref.size();
          while (s > 0 && ref[s - 1].label == l)
            --s;
          size_t n = ref.size() - s;
          for (size_t k = s; k < ref.size(); ++k)
            ref[k].level = n == 1 ? 0 : (int)(k - s + 1);
        }
        want = ref.back().level;
      }
      eq("level of the label", a.level(l), want);
      eq("level asked again", a.level(l), want);
    }
    eq("number of entries", (long)a.size(), (long)ref.size());
    eq("emptiness", a.empty(), ref.empty());
    for (int l : {0, 1, 2})
      eq("top of the stack", a.is_top(l),
         !ref.empty() && ref.back().label == l);
  }
}

void en(std::function<void(Case const &)> const &f) {
  // push 0, push 1, pop, query 0, query 1
  static long const OP[] = {0, 1, -1, -2, -3};
  for (int n = 1; n <= 7; ++n) {
    long total = 1;
    for (int k = 0; k < n; ++k)
      total *= 5;
    for (long v = 0; v < total; ++v) {
      Case c;
      long x = v;
      for (int k = 0; k < n; ++k, x /= 5)
        c.i.push_back(OP[x % 5]);
      f(c);
    }
  }
}
Case rnd(Rng &r) {
  Case c;
  int n = r.range(1, 40), kinds = r.range(1, 3);
  for (int k = 0; k < n; ++k)
    c.i.push_back(r.chance(60)   ? r.below(kinds) * 10
                  : r.chance(40) ? -1
                                 : -2 - 10 * r.below(kinds));
  return c;
}
} // namespace

int main(int argc, char **argv) {
  props()["C17"] = {c17, en, rnd,
                    "every history of up to 7 pushes, pops and level queries "
                    "over 2 labels, then random histories of up to 40 over 3"};
  return run(argc, argv);
}
