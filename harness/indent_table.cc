// Executable statement of C24: indentation by grammar tag.
#include "common.hh"
#include "flpr/Indent_Table.hh"

using FLPR::Indent_Table;
using FLPR::Syntax_Tags;
using namespace hz;

namespace {
using S = Syntax_Tags;
struct B {
  int tag, emacs;
  bool body;
};
static B const BL[] = {
    {S::PG_BLOCK, 3, false},          {S::PG_EXECUTION_PART, 2, true},
    {S::PG_INTERFACE_SPECIFICATION, 3, false},
    {S::PG_INTERNAL_SUBPROGRAM, 2, false},
    {S::PG_MODULE_SUBPROGRAM, 2, false}, {S::PG_SPECIFICATION_PART, 2, true},
    {S::PG_WHERE_BODY_CONSTRUCT, 3, false}, {S::PG_DERIVED_TYPE_DEF, 3, false},
    {S::PG_ENUM_DEF, 3, false},       {S::PG_CASE_CONSTRUCT, 3, false}};

// case: operations, three integers each: kind, tag offset, amount
void c24(Case const &c) {
  int const lo = S::PG_000_LB + 1, hi = S::PG_ZZZ_UB;
  Indent_Table t;
  std::map<int, int> want;
  int cont = 2;
  auto check = [&]() {
    Indent_Table const &u = t;
    for (int k = lo; k < hi; ++k) {
      std::string w = "indentation of " + S::label(k);
      eq(w.c_str(), u.get_indent(k), want[k]);
      eq(w.c_str(), u[k], want[k]);
    }
    eq("continued offset", u.continued_offset(), cont);
  };
  check();
  for (size_t k = 0; k + 2 < c.i.size(); k += 3) {
    int op = (int)c.i[k], x = (int)c.i[k + 2];
    int tag = lo + (int)(c.i[k + 1] % (hi - lo));
    if (op < 0 || c.i[k + 1] < 0)
      throw Skip();
    switch (op % 5) {
    case 0:
      t.apply_constant_indent(x);
      break;
    case 1:
      t.apply_emacs_indent();
      break;
    case 2:
      t.apply_constant_fixed_indent(x);
      break;
    case 3:
      t.set_indent(tag, x);
      want[tag] = x;
      break;
    case 4:
      t.set_continued_offset(x);
      cont = x;
      break;
    }
    if (op % 5 < 3) {
      cont = 5;
      for (B const &b : BL)
        want[b.tag] = op % 5 == 1 ? b.emacs
                      : op % 5 == 2 && b.body ? 0
                                              : x;
    }
    check();
  }
}

void en(std::function<void(Case const &)> const &f) {
  for (int a = 0; a < 5; ++a)
    for (int tag = 0; tag < S::PG_ZZZ_UB - S::PG_000_LB - 1; ++tag)
      for (int b = 0; b < 5; ++b) {
        Case c;
        c.i = {a, tag, 4, b, tag + 1, 7};
        f(c);
      }
}
Case rnd(Rng &r) {
  Case c;
  int n = r.range(1, 8);
  for (int k = 0; k < n; ++k) {
    c.i.push_back(r.below(5));
    c.i.push_back(r.below(60));
    c.i.push_back(r.range(-3, 12));
  }
  return c;
}
} // namespace

int main(int argc, char **argv) {
  props()["C24"] = {c24, en, rnd,
                    "every pair of operations on every grammar tag, then "
                    "random histories of up to 8 operations"};
  return run(argc, argv);
}
