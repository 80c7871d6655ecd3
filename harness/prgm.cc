// Programs with their constructs: the parse tree (C28), procedures and their
// regions (C16), indentation (C29).
#include "common.hh"
#include "flpr/flpr.hh"
#include <algorithm>
#include <iterator>
#include <list>

using namespace hz;
using namespace FLPR;
#define T(X) ((int)Syntax_Tags::X)

namespace {
using PF = Parsed_File<>;
using Proc = Procedure<PF>;
using PCur = PF::Prgm_Cursor;
using PNode = PF::Parse_Tree::node;

std::string tagname(int t) {
  std::ostringstream os;
  Syntax_Tags::print(os, t);
  return os.str();
}

// ---------------------------------------------------------------- generator
struct Stm {
  std::string text;
  int tag, label;
};
struct Node {
  int tag;
  int first, last; // statements, [first,last); empty if equal
  int parent;
  int stmt; // leaf: its statement, else -1
};
struct ProcInfo {
  int kind;
  std::string name;
  bool internal, module, headless, end_typed, end_named;
  std::vector<int> region[8];
  int first, last;
};

struct Gen {
  Rng r;
  int budget;
  std::vector<Stm> st;
  std::vector<Node> nodes; // preorder
  std::vector<int> open_;
  std::vector<ProcInfo> procs;
  int names = 0, labels = 0;
  long only = -1; // the construct to start an execution part with

  Gen(long seed, int b) : r((uint64_t)seed * 77 + 5), budget(b) {}

  std::string nm(char const *base) { return base + std::to_string(++names); }
  int newlabel() { return labels += 10; }

  void open(int tag) {
    nodes.push_back({tag, (int)st.size(), -1, open_.empty() ? -1 : open_.back(),
                     -1});
    open_.push_back((int)nodes.size() - 1);
  }
  void close() {
    nodes[(size_t)open_.back()].last = (int)st.size();
    open_.pop_back();
  }
  void leaf(int tag, std::string const &text, int label = 0) {
    st.push_back({text, tag, label});
    repeat(tag);
  }
  // the last statement once more
  void repeat(int tag) {
    int const s = (int)st.size() - 1;
    nodes.push_back({tag, s, s + 1, open_.empty() ? -1 : open_.back(), s});
  }
  bool more(int pct) { return budget > 0 && r.chance(pct); }

  std::string action() {
    static std::vector<std::string> const a{
        "a = 1",           "b(i) = c + 2 * d",    "call sub(x, y)",
        "continue",        "print *, x",          "write(*,*) x, y",
        "read(5,*) q",     "return",              "stop",
        "if (a > b) c = 1", "if (ok) call s2()",  "where (m > 0) v = 0",
        "allocate(p(10))", "deallocate(p)",       "nullify(z)",
        "cycle",           "exit",                "open(unit=3, file='x')",
        "close(3)",        "rewind 3",            "p => q",
        "x%y(3) = z%w",    "s = 'it''s; here'",   "go to 10",
        "forall (i=1:3) e(i) = i", "s = \"a ! b\"", "r = .not. t .and. u",
        "inquire(unit=3, exist=ok)", "backspace 3", "error stop"};
    return r.pick(a);
  }
  std::string plain() {
    static std::vector<std::string> const a{
        "a = 1", "b(i) = c + 2 * d", "call sub(x, y)", "print *, x",
        "write(*,*) x", "if (a > b) c = 1", "allocate(p(10))", "p => q"};
    return r.pick(a);
  }
  void act(int label = 0) {
    --budget;
    leaf(T(SG_ACTION_STMT), action(), label);
  }

  void block(int pct = 70) {
    open(T(PG_BLOCK));
    body(pct);
    close();
  }
  void body(int pct) {
    for (int k = 0; k < 4 && more(pct); ++k)
      part();
  }
  void part() {
    open(T(PG_EXECUTION_PART_CONSTRUCT));
    if (budget > 0 && r.chance(8)) {
      --budget;
      switch (r.below(3)) {
      case 0:
        leaf(T(SG_FORMAT_STMT), "format(1x, i3, 'a;b')", newlabel());
        break;
      case 1:
        leaf(T(SG_DATA_STMT), "data x, y /1, 2/");
        break;
      default:
        leaf(T(SG_ENTRY_STMT), "entry " + nm("en") + "(x)");
      }
    } else
      executable();
    close();
  }
  std::string cname; // construct name in front, or empty
  std::string tail() { return cname.empty() ? "" : " " + cname; }
  std::string head() { return cname.empty() ? "" : cname + ": "; }

  void executable() {
    open(T(PG_EXECUTABLE_CONSTRUCT));
    long k = only >= 0 ? only : r.below(34);
    only = -1;
    if (k >= 17 || budget <= 0) {
      act(r.chance(12) ? newlabel() : 0);
    } else {
      --budget;
      construct((int)k);
    }
    close();
  }
  void construct(int k) {
    std::string const n = r.chance(25) ? nm("lp") : "";
    std::string const h = n.empty() ? "" : n + ": ";
    std::string const t = n.empty() ? "" : " " + n;
    std::string const sp = r.chance(50) ? " " : "";
    int const lab = r.chance(10) ? newlabel() : 0;
    switch (k) {
    case 0: case 1: // if
      open(T(PG_IF_CONSTRUCT));
      leaf(T(SG_IF_THEN_STMT), h + "if (a > b) then", lab);
      block();
      while (more(35)) {
        --budget;
        leaf(T(SG_ELSE_IF_STMT), "else" + sp + "if (c) then" + t);
        block();
      }
      if (more(40)) {
        --budget;
        leaf(T(SG_ELSE_STMT), "else" + t);
        block();
      }
      leaf(T(SG_END_IF_STMT), "end" + sp + "if" + t, r.chance(10) ? newlabel() : 0);
      close();
      break;
    case 2: case 3: { // block do
      static std::vector<std::string> const c{
          "do i = 1, 10", "do", "do while (x > 0)", "do concurrent (i=1:3)",
          "do j = n, 1, -1"};
      open(T(PG_DO_CONSTRUCT));
      leaf(T(SG_DO_STMT), h + r.pick(c), lab);
      block();
      leaf(T(SG_END_DO_STMT), "end" + sp + "do" + t,
           r.chance(20) ? newlabel() : 0);
      close();
      break;
    }
    case 4: case 5: { // label do, one loop
      int const l = newlabel();
      std::string const ctl =
          "do " + std::to_string(l) + (r.chance(70) ? " i = 1, 10" : "");
      int const how = r.below(3);
      if (how < 2) {
        open(T(PG_DO_CONSTRUCT));
        leaf(T(SG_DO_STMT), ctl, lab);
        block();
        if (how)
          leaf(T(SG_END_DO), "end" + sp + "do", l);
        else
          leaf(T(SG_END_DO), "continue", l);
        close();
      } else {
        open(T(PG_NONBLOCK_DO_CONSTRUCT));
        open(T(PG_ACTION_TERM_DO_CONSTRUCT));
        leaf(T(SG_DO_STMT), ctl, lab);
        open(T(PG_DO_BODY));
        body(60);
        close();
        open(T(PG_DO_TERM_ACTION_STMT));
        leaf(T(SG_ACTION_STMT), plain(), l);
        close();
        close();
        close();
      }
      break;
    }
    case 6: { // label dos that share their last statement
      int const l = newlabel();
      int const depth = r.range(2, 4);
      std::string const ctl = "do " + std::to_string(l) + " i = 1, 10";
      std::vector<int> ends;
      for (int d = 0; d < depth; ++d) {
        if (d) {
          open(T(PG_EXECUTION_PART_CONSTRUCT));
          open(T(PG_EXECUTABLE_CONSTRUCT));
        }
        open(T(PG_NONBLOCK_DO_CONSTRUCT));
        open(d ? T(PG_INNER_SHARED_DO_CONSTRUCT)
               : T(PG_OUTER_SHARED_DO_CONSTRUCT));
        leaf(T(SG_DO_STMT), ctl, d ? 0 : lab);
        open(T(PG_DO_BODY));
        body(30);
      }
      for (int d = depth - 1; d >= 0; --d) {
        close(); // body
        open(T(PG_DO_TERM_SHARED_STMT));
        if (d == depth - 1)
          leaf(T(SG_ACTION_STMT), r.chance(50) ? "continue" : plain(), l);
        else
          // an outer body does not own the statement its inner loop ends with
          {
            nodes.back().first = (int)st.size() - 1;
            repeat(T(SG_ACTION_STMT));
          }
        close();
        close();
        close();
        if (d) {
          close();
          close();
        }
      }
      break;
    }
    case 7: // select case
      open(T(PG_CASE_CONSTRUCT));
      leaf(T(SG_SELECT_CASE_STMT), h + "select" + sp + "case (i)", lab);
      while (more(60)) {
        --budget;
        leaf(T(SG_CASE_STMT),
             (r.chance(75) ? "case (1, 3:5)" : "case default") + t);
        block();
      }
      leaf(T(SG_END_SELECT_STMT), "end" + sp + "select" + t);
      close();
      break;
    case 8: // select type
      open(T(PG_SELECT_TYPE_CONSTRUCT));
      leaf(T(SG_SELECT_TYPE_STMT), h + "select" + sp + "type (x => y)", lab);
      while (more(60)) {
        --budget;
        static std::vector<std::string> const g{
            "type is (real)", "class is (tt)", "class default"};
        leaf(T(SG_TYPE_GUARD_STMT), r.pick(g) + t);
        block();
      }
      leaf(T(SG_END_SELECT_TYPE_STMT), "end" + sp + "select" + t);
      close();
      break;
    case 9: // select rank
      open(T(PG_SELECT_RANK_CONSTRUCT));
      leaf(T(SG_SELECT_RANK_STMT), h + "select rank (x)", lab);
      while (more(60)) {
        --budget;
        static std::vector<std::string> const g{"rank (2)", "rank (*)",
                                                "rank default"};
        leaf(T(SG_SELECT_RANK_CASE_STMT), r.pick(g) + t);
        block();
      }
      leaf(T(SG_END_SELECT_RANK_STMT), "end" + sp + "select" + t);
      close();
      break;
    case 10: // associate
      open(T(PG_ASSOCIATE_CONSTRUCT));
      leaf(T(SG_ASSOCIATE_STMT), h + "associate (q => a%b, w => c + 1)", lab);
      block();
      leaf(T(SG_END_ASSOCIATE_STMT), "end" + sp + "associate" + t);
      close();
      break;
    case 11: case 12: // block
      open(T(PG_BLOCK_CONSTRUCT));
      leaf(T(SG_BLOCK_STMT), h + "block", lab);
      open(T(PG_BLOCK_SPECIFICATION_PART));
      if (more(25)) {
        --budget;
        leaf(T(SG_USE_STMT), "use " + nm("um"));
      }
      if (more(15)) {
        --budget;
        leaf(T(SG_IMPORT_STMT), "import");
      }
      while (more(40))
        declaration(false);
      close();
      block_exec();
      leaf(T(SG_END_BLOCK_STMT), "end" + sp + "block" + t);
      close();
      break;
    case 13: case 14: // where
      where(h, t, lab, 0);
      break;
    default: // forall
      forall(h, t, lab, 0);
    }
  }
  // the block of a block construct: its first item must not read as a
  // declaration
  void block_exec() {
    open(T(PG_BLOCK));
    if (more(70)) {
      open(T(PG_EXECUTION_PART_CONSTRUCT));
      executable();
      close();
      body(50);
    }
    close();
  }
  void where_body(int depth) {
    while (more(50)) {
      open(T(PG_WHERE_BODY_CONSTRUCT));
      --budget;
      switch (r.below(depth < 2 ? 4 : 3)) {
      case 0:
        leaf(T(SG_WHERE_STMT), "where (m > 3) v = 3");
        break;
      case 3:
        where("", "", 0, depth + 1);
        break;
      default:
        leaf(T(SG_ASSIGNMENT_STMT), "v(:) = w + 1");
      }
      close();
    }
  }
  void where(std::string const &h, std::string const &t, int lab, int depth) {
    open(T(PG_WHERE_CONSTRUCT));
    leaf(T(SG_WHERE_CONSTRUCT_STMT), h + "where (m > 0)", lab);
    where_body(depth);
    while (more(35)) {
      --budget;
      leaf(T(SG_MASKED_ELSEWHERE_STMT), "elsewhere (m < 0)" + t);
      where_body(depth);
    }
    if (more(40)) {
      --budget;
      leaf(T(SG_ELSEWHERE_STMT), "elsewhere" + t);
      where_body(depth);
    }
    leaf(T(SG_END_WHERE_STMT), "end where" + t);
    close();
  }
  void forall(std::string const &h, std::string const &t, int lab, int depth) {
    open(T(PG_FORALL_CONSTRUCT));
    leaf(T(SG_FORALL_CONSTRUCT_STMT), h + "forall (i=1:3, j=1:4)", lab);
    while (more(50)) {
      open(T(PG_FORALL_BODY_CONSTRUCT));
      --budget;
      switch (r.below(depth < 2 ? 6 : 4)) {
      case 0:
        leaf(T(SG_WHERE_STMT), "where (m > 3) v = 3");
        break;
      case 1:
        leaf(T(SG_FORALL_STMT), "forall (k=1:2) e(k, i) = 0");
        break;
      case 4:
        where("", "", 0, depth + 1);
        break;
      case 5:
        forall("", "", 0, depth + 1);
        break;
      default:
        leaf(T(SG_FORALL_ASSIGNMENT_STMT), "e(i, j) = i + j");
      }
      close();
    }
    leaf(T(SG_END_FORALL_STMT), "end forall" + t);
    close();
  }
  void execution_part() {
    if (!(only >= 0 || more(80)))
      return;
    open(T(PG_EXECUTION_PART));
    executable();
    body(75);
    close();
  }

  // ----------------------------------------------------------- specification
  void declaration(bool first) {
    open(T(PG_DECLARATION_CONSTRUCT));
    --budget;
    int const k = first ? r.below(14) : r.below(18);
    if (k >= 16) {
      if (r.chance(50))
        leaf(T(SG_FORMAT_STMT), "format(i3)", newlabel());
      else
        leaf(T(SG_DATA_STMT), "data k /3/");
    } else {
      open(T(PG_SPECIFICATION_CONSTRUCT));
      std::string const sp = r.chance(50) ? " " : "";
      switch (k) {
      case 0: { // derived type
        std::string const n = nm("ty");
        open(T(PG_DERIVED_TYPE_DEF));
        leaf(T(SG_DERIVED_TYPE_STMT),
             r.chance(50) ? "type " + n : "type, abstract :: " + n);
        if (more(30)) {
          --budget;
          leaf(T(SG_PRIVATE_OR_SEQUENCE),
               r.chance(50) ? "private" : "sequence");
        }
        open(T(PG_COMPONENT_PART));
        while (more(50)) {
          --budget;
          leaf(T(SG_COMPONENT_DEF_STMT),
               r.chance(70) ? "integer :: c" : "procedure(pp), pointer :: f");
        }
        close();
        if (more(30)) {
          open(T(PG_TYPE_BOUND_PROCEDURE_PART));
          leaf(T(SG_CONTAINS_STMT), "contains");
          while (more(50)) {
            --budget;
            static std::vector<std::string> const b{
                "procedure :: m", "generic :: g => m, n", "final :: d"};
            leaf(T(SG_TYPE_BOUND_PROC_BINDING), r.pick(b));
          }
          close();
        }
        leaf(T(SG_END_TYPE_STMT),
             "end" + sp + "type" + (r.chance(50) ? " " + n : ""));
        close();
        break;
      }
      case 1:
        open(T(PG_ENUM_DEF));
        leaf(T(SG_ENUM_DEF_STMT), "enum, bind(c)");
        do {
          --budget;
          leaf(T(SG_ENUMERATOR_DEF_STMT), "enumerator :: red = 1, blue");
        } while (more(40));
        leaf(T(SG_END_ENUM_STMT), "end" + sp + "enum");
        close();
        break;
      case 2: case 3:
        open(T(PG_INTERFACE_BLOCK));
        leaf(T(SG_INTERFACE_STMT), r.chance(60) ? "interface" : "interface gg");
        while (more(50)) {
          open(T(PG_INTERFACE_SPECIFICATION));
          --budget;
          int const how = r.below(3);
          if (how == 2)
            leaf(T(SG_PROCEDURE_STMT), "module procedure a1, a2");
          else {
            open(T(PG_INTERFACE_BODY));
            std::string const n = nm("ib");
            if (how)
              leaf(T(SG_FUNCTION_STMT), "function " + n + "(x)");
            else
              leaf(T(SG_SUBROUTINE_STMT), "subroutine " + n + "(x)");
            specification_part(nullptr);
            leaf(how ? T(SG_END_FUNCTION_STMT) : T(SG_END_SUBROUTINE_STMT),
                 std::string("end") + sp + (how ? "function" : "subroutine") +
                     (r.chance(50) ? " " + n : ""));
            close();
          }
          close();
        }
        leaf(T(SG_END_INTERFACE_STMT), "end" + sp + "interface");
        close();
        break;
      case 4:
        leaf(T(SG_GENERIC_STMT), "generic :: operator(+) => add1, add2");
        break;
      case 5:
        leaf(T(SG_PROCEDURE_DECLARATION_STMT), "procedure(real), pointer :: fp");
        break;
      case 6: case 7: {
        static std::vector<std::string> const o{
            "save", "dimension aa(3)", "external ff", "common /blk/ u, v",
            "intrinsic sin", "private", "public :: zz", "pointer :: pt",
            "target :: tg", "optional :: op", "intent(in) :: ii",
            "namelist /nl/ q, w", "equivalence (x1, x2)"};
        leaf(T(SG_OTHER_SPECIFICATION_STMT), r.pick(o));
        break;
      }
      case 14: case 15:
        leaf(T(SG_PARAMETER_STMT), "parameter (pi = 3.14)");
        break;
      default: {
        static std::vector<std::string> const d{
            "integer :: k", "real, dimension(3) :: a = 1.0",
            "character(len=20) :: str", "type(tt), pointer :: next",
            "logical flag", "double precision dd", "complex*16 zz(3)",
            "integer(kind=8), parameter :: big = 3"};
        leaf(T(SG_TYPE_DECLARATION_STMT), r.pick(d));
      }
      }
      close();
    }
    close();
  }
  void specification_part(ProcInfo *p) {
    auto upto = [&](int region, int from) {
      if (p)
        for (int k = from; k < (int)st.size(); ++k)
          p->region[region].push_back(k);
    };
    open(T(PG_SPECIFICATION_PART));
    int b = (int)st.size();
    while (more(25)) {
      --budget;
      static std::vector<std::string> const u{
          "use mm", "use mm, only : a, b => c", "use, intrinsic :: iso_c_binding"};
      leaf(T(SG_USE_STMT), r.pick(u));
    }
    upto(1, b);
    b = (int)st.size();
    while (more(12)) {
      --budget;
      leaf(T(SG_IMPORT_STMT), r.chance(50) ? "import" : "import :: a, b");
    }
    upto(2, b);
    b = (int)st.size();
    open(T(PG_IMPLICIT_PART));
    while (more(25)) {
      --budget;
      open(T(PG_IMPLICIT_PART_STMT));
      switch (r.below(4)) {
      case 0:
        leaf(T(SG_PARAMETER_STMT), "parameter (e = 2.71)");
        break;
      case 1:
        leaf(T(SG_FORMAT_STMT), "format(a)", newlabel());
        break;
      default:
        leaf(T(SG_IMPLICIT_STMT),
             r.chance(60) ? "implicit none" : "implicit real (a-h)");
      }
      close();
    }
    close();
    upto(3, b);
    b = (int)st.size();
    bool first = true;
    while (more(45)) {
      declaration(first);
      first = false;
    }
    upto(4, b);
    close();
  }

  // -------------------------------------------------------------- procedures
  // kind: 0 subroutine, 1 function, 2 main, 3 separate module procedure
  void procedure(int kind, bool internal, bool module) {
    size_t const me = procs.size();
    procs.push_back({});
    ProcInfo p{};
    p.kind = kind;
    p.internal = internal;
    p.module = module;
    p.headless = kind == 2 && r.chance(40);
    p.name = p.headless ? "" : nm(kind == 0 ? "sr" : kind == 1 ? "fn" : kind == 2 ? "mn" : "sm");
    p.first = (int)st.size();
    switch (kind) {
    case 0: {
      static std::vector<std::string> const pre{
          "", "", "", "pure ", "recursive ", "impure elemental "};
      open(T(PG_SUBROUTINE_SUBPROGRAM));
      leaf(T(SG_SUBROUTINE_STMT), r.pick(pre) + "subroutine " + p.name +
                                      (r.chance(60) ? "(x, y)" : ""));
      break;
    }
    case 1: {
      static std::vector<std::string> const pre{
          "", "", "real ", "pure integer ", "type(tt) recursive "};
      open(T(PG_FUNCTION_SUBPROGRAM));
      leaf(T(SG_FUNCTION_STMT), r.pick(pre) + "function " + p.name + "(x)" +
                                    (r.chance(30) ? " result(rr)" : ""));
      break;
    }
    case 2:
      open(T(PG_MAIN_PROGRAM));
      if (!p.headless)
        leaf(T(SG_PROGRAM_STMT), "program " + p.name);
      break;
    default:
      open(T(PG_SEPARATE_MODULE_SUBPROGRAM));
      leaf(T(SG_MP_SUBPROGRAM_STMT), "module procedure " + p.name);
    }
    if (!p.headless)
      p.region[0].push_back(p.first);
    specification_part(&p);
    int b = (int)st.size();
    execution_part();
    for (int k = b; k < (int)st.size(); ++k)
      p.region[5].push_back(k);
    b = (int)st.size();
    if (!internal && more(30)) {
      open(T(PG_INTERNAL_SUBPROGRAM_PART));
      leaf(T(SG_CONTAINS_STMT), "contains");
      while (more(60)) {
        --budget;
        open(T(PG_INTERNAL_SUBPROGRAM));
        procedure(r.below(2), true, module);
        close();
      }
      close();
    }
    for (int k = b; k < (int)st.size(); ++k)
      p.region[6].push_back(k);
    static char const *const word[] = {"subroutine", "function", "program",
                                       "procedure"};
    static int const tag[] = {T(SG_END_SUBROUTINE_STMT),
                              T(SG_END_FUNCTION_STMT), T(SG_END_PROGRAM_STMT),
                              T(SG_END_MP_SUBPROGRAM_STMT)};
    p.region[7].push_back((int)st.size());
    p.end_typed = r.chance(65);
    p.end_named = p.end_typed && !p.headless && r.chance(60);
    std::string e = "end";
    if (p.end_typed)
      e += (r.chance(70) ? " " : "") + std::string(word[kind]);
    if (p.end_named)
      e += " " + p.name;
    leaf(tag[kind], e);
    close();
    p.last = (int)st.size();
    procs[me] = p;
  }
  void unit(int k) {
    open(T(PG_PROGRAM_UNIT));
    --budget;
    if (k < 4) {
      open(T(PG_EXTERNAL_SUBPROGRAM));
      procedure(k % 2, false, false);
      close();
    } else if (k < 6) {
      procedure(2, false, false);
    } else {
      std::string const n = nm("md");
      open(T(PG_MODULE));
      leaf(T(SG_MODULE_STMT), "module " + n);
      specification_part(nullptr);
      if (more(80)) {
        open(T(PG_MODULE_SUBPROGRAM_PART));
        leaf(T(SG_CONTAINS_STMT), "contains");
        while (more(75)) {
          --budget;
          open(T(PG_MODULE_SUBPROGRAM));
          int const q = r.below(5);
          procedure(q < 2 ? 0 : q < 4 ? 1 : 3, false, true);
          close();
        }
        close();
      }
      static std::vector<std::string> const e{"end", "end module",
                                              "endmodule"};
      int const q = r.below(3);
      leaf(T(SG_END_MODULE_STMT),
           e[(size_t)q] + (q && r.chance(50) ? " " + n : ""));
      close();
    }
    close();
  }
  void program() {
    open(T(PG_PROGRAM));
    do
      unit(r.below(9));
    while (more(45));
    close();
  }
};

// ------------------------------------------------------------------- layout
struct Lay {
  std::string text;
  // per statement: 1 if it starts a line of the file
  std::vector<char> starts;
  std::vector<int> line; // its line, from 0
};
Lay layout(std::vector<Stm> const &st, Rng &r, int fancy) {
  Lay o;
  std::vector<std::string> lines;
  bool can_join = false;
  for (size_t k = 0; k < st.size(); ++k) {
    std::string t = st[k].text;
    if (fancy && r.chance(10))
      for (char &c : t)
        if (t.find('\'') == std::string::npos)
          c = (char)toupper(c);
    if (fancy && can_join && !st[k].label && r.chance(12)) {
      lines.back() += (r.chance(50) ? "; " : ";") + t;
      o.starts.push_back(0);
      o.line.push_back((int)lines.size() - 1);
      continue;
    }
    if (fancy && r.chance(12))
      lines.push_back(r.chance(50) ? "  ! a remark; with 'quote" : "");
    std::string s =
        std::string(fancy ? (size_t)r.below(9) : 0, ' ');
    if (st[k].label)
      s = std::to_string(st[k].label) + " " + s;
    o.starts.push_back(1);
    o.line.push_back((int)lines.size());
    can_join = true;
    if (fancy && r.chance(12)) {
      // continue after some blank outside of quotes
      size_t p = t.find(' ');
      size_t qt = t.find_first_of("'\"");
      if (p != std::string::npos && (qt == std::string::npos || p < qt)) {
        lines.push_back(s + t.substr(0, p) + " &");
        if (r.chance(25))
          lines.push_back("! in between");
        lines.push_back(std::string((size_t)r.below(12), ' ') +
                        (r.chance(50) ? "& " : "") + t.substr(p + 1));
        can_join = false;
        continue;
      }
    }
    s += t;
    if (fancy && r.chance(8)) {
      s += "  ! trailing remark";
      can_join = false;
    }
    lines.push_back(s);
  }
  for (auto const &l : lines)
    o.text += l + "\n";
  return o;
}

struct Quiet {
  std::ostringstream sink;
  std::streambuf *old;
  Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};

void why(std::string const &what) { throw Failure(what); }

std::string text_of(PF &f) {
  std::ostringstream os;
  for (auto const &ll : f.logical_lines())
    for (auto const &fl : ll.layout())
      os << fl << '\n';
  return os.str();
}

struct Made {
  Gen g;
  Lay lay;
  std::unique_ptr<PF> f;
};
// i: seed, budget, fancy, first construct (or -1), kind of the first unit
void make(Case const &c, Made &m) {
  m.g.only = c.i[3];
  if (c.i[4] >= 0) {
    m.g.open(T(PG_PROGRAM));
    m.g.unit((int)(c.i[4] % 9));
    while (m.g.more(35))
      m.g.unit(m.g.r.below(9));
    m.g.close();
  } else
    m.g.program();
  Rng r((uint64_t)c.i[0] * 31 + 7);
  m.lay = layout(m.g.st, r, (int)c.i[2]);
  if (getenv("HZ_DUMP"))
    printf("%s--\n", m.lay.text.c_str());
}
bool read(Made &m, std::string const &text) {
  std::istringstream is(text);
  m.f.reset(new PF(is, "t.f90", 0, File_Type::FREEFMT));
  return (bool)*m.f;
}

// --------------------------------------------------------------- C28: trees
struct Seen {
  int tag, first, last, parent;
  bool leaf;
};
struct Walk {
  std::map<LL_Stmt const *, int> at; // position in the statement list
  std::vector<LL_STMT_SEQ::iterator> its;
  std::vector<Seen> seen; // nodes with statements, in preorder
  std::vector<int> leaves;
  explicit Walk(PF &f) {
    auto &s = f.statements();
    for (auto it = s.begin(); it != s.end(); ++it) {
      at[&*it] = (int)its.size();
      its.push_back(it);
    }
  }
  // -> first, last (or -1,-1 if there is no statement under n)
  std::pair<int, int> walk(PNode &n, int parent) {
    size_t const me = seen.size();
    if (n.is_leaf()) {
      if (!n->is_stmt()) {
        ok("an empty node covers nothing", n->stmt_range().empty());
        return {-1, -1};
      }
      auto x = at.find(&n->ll_stmt());
      ok("a leaf is a statement of the file", x != at.end());
      int const k = x->second;
      ok("a leaf's iterator is its statement's",
         n->ll_stmt_iter() == its[(size_t)k]);
      seen.push_back({n->syntag(), k, k + 1, parent, true});
      leaves.push_back(k);
      auto &rg = n->stmt_range();
      ok("a leaf covers its statement",
         rg.size() == 1 && rg.begin() == its[(size_t)k] &&
             rg.end() == std::next(its[(size_t)k]));
      return {k, k + 1};
    }
    ok("an inner node is no statement", !n->is_stmt());
    seen.push_back({n->syntag(), -1, -1, parent, false});
    int f = -1, l = -1;
    for (auto &b : n.branches()) {
      ok("a branch knows its trunk", &*b.trunk() == &n);
      auto p = walk(b, (int)me);
      if (p.first < 0)
        continue;
      if (f < 0)
        f = p.first;
      l = p.second;
    }
    if (f < 0) {
      ok("a node without statements covers nothing", n->stmt_range().empty());
      seen.erase(seen.begin() + (long)me, seen.end());
      return {-1, -1};
    }
    auto &rg = n->stmt_range();
    if (rg.begin() != its[(size_t)f])
      why("the range of " + tagname(n->syntag()) +
          " does not start at its first statement");
    if (rg.end() != std::next(its[(size_t)l - 1]) ||
        rg.size() != (size_t)(l - f))
      why("the range of " + tagname(n->syntag()) +
          " does not end with its last statement");
    seen[me].first = f;
    seen[me].last = l;
    return {f, l};
  }
};

struct Role {
  int construct, first, last;
};
Role const roles[] = {
    {T(PG_IF_CONSTRUCT), T(SG_IF_THEN_STMT), T(SG_END_IF_STMT)},
    {T(PG_CASE_CONSTRUCT), T(SG_SELECT_CASE_STMT), T(SG_END_SELECT_STMT)},
    {T(PG_SELECT_TYPE_CONSTRUCT), T(SG_SELECT_TYPE_STMT),
     T(SG_END_SELECT_TYPE_STMT)},
    {T(PG_SELECT_RANK_CONSTRUCT), T(SG_SELECT_RANK_STMT),
     T(SG_END_SELECT_RANK_STMT)},
    {T(PG_ASSOCIATE_CONSTRUCT), T(SG_ASSOCIATE_STMT), T(SG_END_ASSOCIATE_STMT)},
    {T(PG_BLOCK_CONSTRUCT), T(SG_BLOCK_STMT), T(SG_END_BLOCK_STMT)},
    {T(PG_WHERE_CONSTRUCT), T(SG_WHERE_CONSTRUCT_STMT), T(SG_END_WHERE_STMT)},
    {T(PG_FORALL_CONSTRUCT), T(SG_FORALL_CONSTRUCT_STMT),
     T(SG_END_FORALL_STMT)},
    {T(PG_DERIVED_TYPE_DEF), T(SG_DERIVED_TYPE_STMT), T(SG_END_TYPE_STMT)},
    {T(PG_ENUM_DEF), T(SG_ENUM_DEF_STMT), T(SG_END_ENUM_STMT)},
    {T(PG_INTERFACE_BLOCK), T(SG_INTERFACE_STMT), T(SG_END_INTERFACE_STMT)},
    {T(PG_MODULE), T(SG_MODULE_STMT), T(SG_END_MODULE_STMT)},
    {T(PG_SUBROUTINE_SUBPROGRAM), T(SG_SUBROUTINE_STMT),
     T(SG_END_SUBROUTINE_STMT)},
    {T(PG_FUNCTION_SUBPROGRAM), T(SG_FUNCTION_STMT), T(SG_END_FUNCTION_STMT)},
    {T(PG_SEPARATE_MODULE_SUBPROGRAM), T(SG_MP_SUBPROGRAM_STMT),
     T(SG_END_MP_SUBPROGRAM_STMT)}};

// what holds of every tree there is, whatever the text was
void sound(PF &f, Walk &w) {
  auto c = f.parse_tree().cursor();
  eq("the root", c->syntag(), T(PG_PROGRAM));
  w.walk(*f.parse_tree(), -1);
  // every statement, in order; the one that loops share ends each of them
  size_t k = 0;
  std::vector<char> shared(w.its.size(), 0);
  std::vector<int> leaf_node;
  for (size_t n = 0; n < w.seen.size(); ++n)
    if (w.seen[n].leaf)
      leaf_node.push_back((int)n);
  for (size_t n = 0; n < leaf_node.size(); ++n) {
    Seen const &s = w.seen[(size_t)leaf_node[n]];
    if (k > 0 && s.first == (int)k - 1) {
      ok("only the statement that loops share is in the tree twice",
         w.seen[(size_t)s.parent].tag == T(PG_DO_TERM_SHARED_STMT) &&
             w.seen[(size_t)w.seen[(size_t)leaf_node[n - 1]].parent].tag ==
                 T(PG_DO_TERM_SHARED_STMT));
      continue;
    }
    if (s.first != (int)k)
      why("statement " + std::to_string(k) + " (" +
          tagname(w.its[k]->stmt_tag(false)) + ") is not in the tree");
    ++k;
  }
  eq("statements in the tree", (long)k, (long)w.its.size());
  // what opens or closes a construct opens or closes it
  for (size_t n = 0; n < w.seen.size(); ++n) {
    Seen const &s = w.seen[n];
    if (!s.leaf) {
      for (Role const &r : roles)
        if (r.construct == s.tag) {
          // its first and its last child
          Seen const &b = w.seen[n + 1];
          eq((tagname(s.tag) + " starts with its statement").c_str(), b.tag,
             r.first);
          int lastk = -1;
          for (size_t q = n + 1; q < w.seen.size(); ++q)
            if (w.seen[q].parent == (int)n)
              lastk = (int)q;
          eq((tagname(s.tag) + " ends with its statement").c_str(),
             w.seen[(size_t)lastk].tag, r.last);
        }
      continue;
    }
    Seen const &p = w.seen[(size_t)s.parent];
    for (Role const &r : roles) {
      if (s.tag == r.first && p.tag != T(PG_INTERFACE_BODY) &&
          !(p.tag == r.construct && p.first == s.first))
        why("the statement " + tagname(s.tag) + " starts no construct");
      if (s.tag == r.last && p.tag != T(PG_INTERFACE_BODY) &&
          !(p.tag == r.construct && p.last == s.last))
        why("the statement " + tagname(s.tag) + " ends no construct");
    }
  }
  // the way back from a statement
  for (size_t q = 0; q < w.its.size(); ++q) {
    ok("a statement knows its node", w.its[q]->has_hook());
    PCur n = f.stmt_to_node_cursor(w.its[q]);
    ok("a statement's node is its leaf",
       n->is_stmt() && n->ll_stmt_iter() == w.its[q]);
    ok("a statement has its tree", w.its[q]->has_hook() && n->stmt_tree());
    // up to the root
    int guard = 0;
    while (n.has_up() && ++guard < 10000)
      n.up();
    ok("every node is under the root", &*n == &*c);
  }
}

void c28(Case const &cs) {
  if (cs.i.size() < 8)
    throw Skip();
  Quiet quiet;
  Made m{Gen(cs.i[0], (int)cs.i[1]), {}, nullptr};
  make(cs, m);
  int const mut = (int)cs.i[5];
  if (mut) {
    // break it: sound or refused, in one piece either way
    std::vector<Stm> st = m.g.st;
    size_t const k = (size_t)cs.i[6] % st.size();
    size_t const k2 = (size_t)cs.i[7] % st.size();
    switch (mut) {
    case 1:
      st.erase(st.begin() + (long)k);
      break;
    case 2:
      st.insert(st.begin() + (long)k, st[k]);
      break;
    case 3:
      std::swap(st[k], st[k2]);
      break;
    case 4:
      st.erase(st.begin() + (long)k, st.end());
      break;
    case 5:
      st.insert(st.begin() + (long)k, {"no such statement", 0, 0});
      break;
    default:
      st.insert(st.begin() + (long)k, st[k2]);
    }
    Rng r((uint64_t)cs.i[0] * 31 + 7);
    Lay lay = layout(st, r, (int)cs.i[2]);
    ok("the file is read", read(m, lay.text));
    bool const empty = m.f->parse_tree().empty();
    if (st.empty()) {
      ok("no statement, no tree", empty);
      return;
    }
    eq("a tree if and only if the file is good", !empty, (bool)*m.f);
    eq("statements", (long)m.f->statements().size(), (long)st.size());
    if (empty) {
      ok("a refused file stays refused", m.f->parse_tree().empty() && !*m.f);
      eq("the text of a refused file", text_of(*m.f), lay.text);
      return;
    }
    Walk w(*m.f);
    sound(*m.f, w);
    return;
  }
  ok("the file is read", read(m, m.lay.text));
  if (m.f->parse_tree().empty() || !*m.f)
    why("a well-formed program is refused: " + quiet.sink.str() + "\n" +
        m.lay.text);
  eq("statements", (long)m.f->statements().size(), (long)m.g.st.size());
  Walk w(*m.f);
  sound(*m.f, w);
  // the tree is the program's
  std::vector<Node const *> want;
  std::vector<int> pre(m.g.nodes.size(), -1);
  for (size_t k = 0; k < m.g.nodes.size(); ++k)
    if (m.g.nodes[k].first < m.g.nodes[k].last) {
      pre[k] = (int)want.size();
      want.push_back(&m.g.nodes[k]);
    }
  for (size_t k = 0; k < want.size() || k < w.seen.size(); ++k) {
    auto txt = [&](int tag, int a, int b) {
      return tagname(tag) + " over statements " + std::to_string(a) + " to " +
             std::to_string(b);
    };
    std::string const ws =
        k < want.size() ? txt(want[k]->tag, want[k]->first, want[k]->last)
                        : "nothing";
    std::string const gs =
        k < w.seen.size()
            ? txt(w.seen[k].tag, w.seen[k].first, w.seen[k].last)
            : "nothing";
    if (ws != gs)
      why("node " + std::to_string(k) + ": got " + gs + ", expected " + ws +
          "\n" + m.lay.text);
    int const wp = want[k]->parent < 0 ? -1 : pre[(size_t)want[k]->parent];
    eq("the trunk of a node", w.seen[k].parent, wp);
  }
  for (size_t k = 0; k < m.g.st.size(); ++k)
    eq("label", w.its[k]->label(), m.g.st[k].label);
}
void en28(std::function<void(Case const &)> const &f) {
  for (long unit : {0, 1, 4, 6})
    for (long b : {1, 2, 3, 5, 9, 14})
      for (long only = -1; only < 17; ++only)
        for (long seed = 1; seed <= (b < 5 ? 3 : 6); ++seed) {
          Case c;
          c.i = {seed * 1000 + b, b, seed % 2, only, unit, 0, 0, 0};
          f(c);
          if (only >= 0)
            for (long k = 0; k < b + 4; ++k) {
              c.i[5] = 1 + (k + seed) % 6;
              c.i[6] = k;
              c.i[7] = k * 7 + seed;
              f(c);
              c.i[5] = 1;
              f(c);
            }
        }
}
Case rnd28(Rng &r) {
  Case c;
  bool const mut = r.chance(50);
  c.i = {(long)(r.next() >> 40), r.range(1, mut ? 25 : 60), r.below(2), -1, -1,
         mut ? r.range(1, 6) : 0, r.below(200), r.below(200)};
  return c;
}
} // namespace

#include "prgm_procs.hh"

int main(int argc, char **argv) {
  props()["C28"] = {c28, en28, rnd28,
                    "every construct at the head of a subroutine, function, "
                    "main program and module, with bodies of up to 14 "
                    "statements, well-formed and with a statement dropped, "
                    "doubled, moved, cut off or replaced; then random programs "
                    "of up to 60 statements"};
  more_props();
  return run(argc, argv);
}
