// Executable statement of C10: which physical lines form a logical line.
// The classification of one physical line is File_Line's (C01-C05).
#include "common.hh"
#include "flpr/File_Line.hh"
#include "flpr/Logical_File.hh"
#include "flpr/utils.hh"

using namespace FLPR;
using namespace hz;

namespace {
using FLV = std::vector<File_Line>;

// the analysis of every line, in the context its predecessors leave: comments
// and blanks leave the context alone.  False: a line is rejected.
bool analyse(std::vector<std::string> const &t, bool fixed, int last,
             FLV &fl) {
  char delim = '\0';
  bool cont = false, lit = false;
  for (size_t k = 0; k < t.size(); ++k) {
    try {
      fl.push_back(fixed ? File_Line::analyze_fixed((int)k + 1, t[k], delim,
                                                    last)
                         : File_Line::analyze_free((int)k + 1, t[k], delim,
                                                   cont, lit));
    } catch (std::exception &) {
      return false;
    }
    if (!fl.back().is_trivial()) {
      delim = fl.back().open_delim;
      cont = fl.back().is_continued();
    }
  }
  return true;
}

struct Blk {
  size_t lo, hi;
  LineCat cat;
  bool stmt;
};

bool backslash(File_Line const &f) {
  size_t p = f.left_txt.find_last_not_of(" \t");
  return p != std::string::npos && f.left_txt[p] == '\\';
}

std::vector<Blk> group(FLV &fl, bool fixed) {
  std::vector<Blk> out;
  size_t const n = fl.size();
  size_t k = 0;
  while (k < n) {
    size_t e = k;
    if (fl[k].is_trivial()) {
      while (e < n && fl[e].is_trivial())
        ++e;
      out.push_back({k, e, LineCat::UNKNOWN, false});
    } else if (!fixed && fl[k].is_flpr_lit()) {
      while (e < n && fl[e].is_flpr_lit())
        ++e;
      out.push_back({k, e, LineCat::LITERAL, false});
    } else if (!fl[k].is_fortran()) {
      ++e;
      while (e < n && backslash(fl[e - 1]))
        fl[e++].make_preprocessor();
      out.push_back({k, e,
                     fl[k].is_flpr_pp()   ? LineCat::FLPR_PP
                     : fl[k].is_include() ? LineCat::INCLUDE
                                          : LineCat::MACRO,
                     false});
    } else {
      size_t last = k;
      if (fixed) {
        for (size_t j = k + 1;
             j < n && (fl[j].is_trivial() || fl[j].is_continuation()); ++j)
          if (fl[j].is_continuation())
            last = j;
      } else {
        for (size_t j = k; j < n; ++j)
          if (!fl[j].is_trivial()) {
            last = j;
            if (!fl[j].is_continued())
              break;
          }
      }
      e = last + 1;
      out.push_back({k, e, LineCat::UNKNOWN, true});
    }
    k = e;
  }
  return out;
}

void same(File_Line const &a, File_Line const &b) {
  eq("line number", a.linenum, b.linenum);
  eq("left text", a.left_txt, b.left_txt);
  eq("left space", a.left_space, b.left_space);
  eq("body", a.main_txt, b.main_txt);
  eq("right space", a.right_space, b.right_space);
  eq("right text", a.right_txt, b.right_txt);
  eq("open delimiter", (int)a.open_delim, (int)b.open_delim);
  ok("classification",
     a.is_fortran() == b.is_fortran() && a.is_trivial() == b.is_trivial() &&
         a.is_comment() == b.is_comment() && a.is_blank() == b.is_blank() &&
         a.is_continued() == b.is_continued() &&
         a.is_continuation() == b.is_continuation() &&
         a.is_preprocessor() == b.is_preprocessor() &&
         a.is_include() == b.is_include() &&
         a.is_flpr_pp() == b.is_flpr_pp() &&
         a.is_flpr_lit() == b.is_flpr_lit() &&
         a.has_label() == b.has_label());
}

struct Quiet {
  std::streambuf *old;
  std::ostringstream o;
  Quiet() : old(std::cerr.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};

// s: the physical lines; i: form (0 free, 1 fixed), last column
void c10(Case const &c) {
  if (c.i.size() < 2 || c.i[0] < 0 || c.i[0] > 1)
    throw Skip();
  bool fixed = c.i[0] == 1;
  int last = (int)c.i[1];
  if (last < 7 || last > 200)
    throw Skip();
  FLV fl;
  Quiet q;
  bool good = analyse(c.s, fixed, last, fl);
  Logical_File f;
  bool got = f.scan(c.s, "t", last,
                    fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  eq("is every line accepted", got, good);
  eq("number of input lines", (long)f.num_input_lines, (long)c.s.size());
  if (!good) {
    ok("nothing is kept of a rejected file", f.lines.empty());
    return;
  }
  FLV raw(fl);
  std::vector<Blk> b = group(fl, fixed);
  eq("number of logical lines", (long)f.lines.size(), (long)b.size());
  size_t k = 0;
  bool pp = false;
  for (auto const &ll : f.lines) {
    Blk const &x = b[k++];
    eq("number of physical lines", (long)ll.layout().size(),
       (long)(x.hi - x.lo));
    for (size_t j = x.lo; j < x.hi; ++j)
      same(ll.layout()[j - x.lo], fl[j]);
    eq("kind of line", (int)ll.cat, (int)x.cat);
    eq("reformatted on output", ll.needs_reformat, fixed && x.stmt);
    eq("suppressed", ll.suppress, false);
    ok("the file it belongs to", ll.file_info == f.file_info);
    eq("first line number", ll.start_line(), (int)x.lo + 1);
    eq("line number past the last", ll.end_line(), (int)x.hi + 1);
    pp = pp || x.cat == LineCat::FLPR_PP;
    // a statement or comment read on its own is analysed the same way
    if (x.cat != LineCat::UNKNOWN)
      continue;
    std::vector<std::string> t(c.s.begin() + (long)x.lo,
                               c.s.begin() + (long)x.hi);
    FLV alone;
    if (!analyse(t, fixed, last, alone))
      continue;
    Logical_Line one = fixed ? Logical_Line(t, last) : Logical_Line(t);
    eq("lines of a line read alone", (long)one.layout().size(),
       (long)t.size());
    for (size_t j = 0; j < t.size(); ++j)
      same(one.layout()[j], alone[j]);
  }
  eq("are there preprocessor lines", f.has_flpr_pp, pp);
}

char const *const FREE[] = {"x=1",    "x=1&",  "x='a&", "&b'",      "&b&",
                            "! c",    "",      "#if X", "#d a \\",  "include 'f'",
                            "!#flpr", "!#flpr   literal", "x=\"q", "y=2;&", "10 z=1"};
char const *const FIXED[] = {"      x=1",  "     &+1", "      x='a", "     &b'",
                             "c",          "",         "! c",        "#if X",
                             "#d \\",      "      include 'f'",       "10    y=2",
                             "!#flpr",     "     &!x", "     0z=1"};
template <size_t N>
void words(char const *const (&w)[N], long form, int len,
           std::function<void(Case const &)> const &f) {
  for (int n = 0; n <= len; ++n) {
    long total = 1;
    for (int k = 0; k < n; ++k)
      total *= (long)N;
    for (long v = 0; v < total; ++v) {
      Case c;
      c.i = {form, 72};
      long x = v;
      for (int k = 0; k < n; ++k, x /= (long)N)
        c.s.push_back(w[x % (long)N]);
      f(c);
    }
  }
}
void en(std::function<void(Case const &)> const &f) {
  words(FREE, 0, 3, f);
  words(FIXED, 1, 3, f);
}
Case rnd(Rng &r) {
  Case c;
  bool fixed = r.chance(45);
  c.i = {fixed ? 1 : 0, 72};
  int n = r.range(3, 10);
  while (n--) {
    if (fixed)
      c.s.push_back(FIXED[r.below(14)]);
    else
      c.s.push_back(FREE[r.below(15)]);
    if (r.chance(20))
      c.s.back() += r.chance(50) ? " ! q" : " ";
    if (!fixed && r.chance(20))
      c.s.back() = "  " + c.s.back();
  }
  return c;
}
} // namespace

int main(int argc, char **argv) {
  props()["C10"] = {c10, en, rnd,
                    "every file of up to 3 lines from 15 free-form and 14 "
                    "fixed-form lines, then random files of up to 10 lines"};
  return run(argc, argv);
}
