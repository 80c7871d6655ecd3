// Executable statement of C26: editing one statement of a file leaves the
// others as they were, and the statements stay those of the lines.
#include "common.hh"
#include "flpr/LL_Stmt_Src.hh"
#include "flpr/Logical_File.hh"
#include "flpr/Syntax_Tags.hh"

using namespace FLPR;
using namespace hz;

namespace {
struct Quiet {
  std::streambuf *old;
  std::ostringstream o;
  Quiet() : old(std::cerr.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
using Words = std::vector<std::string>;
struct M { // a statement: its tokens, label, the lines in front of it
  Words w;
  int label;
  Words prefix;
};
std::string show(Words const &w) {
  std::string s;
  for (auto const &x : w)
    s += "[" + x + "]";
  return s;
}
std::string text(Logical_Line const &l) {
  std::ostringstream o;
  o << l;
  return o.str();
}
std::vector<M> view(Logical_File &f) {
  std::vector<M> out;
  for (auto &s : f.ll_stmts) {
    M m;
    m.label = s.label();
    for (auto const &t : s)
      m.w.push_back(t.text());
    for (auto it : s.prefix_lines)
      m.prefix.push_back(text(*it));
    out.push_back(m);
  }
  return out;
}
std::string show(std::vector<M> const &v, bool prefix) {
  std::string s;
  for (auto const &m : v) {
    if (prefix)
      s += "<" + show(m.prefix) + ">";
    s += std::to_string(m.label) + show(m.w) + " ";
  }
  return s;
}

void check_file(Logical_File &f, std::vector<M> const &m, char const *what) {
  std::string w(what);
  eq(("statements after " + w).c_str(), show(view(f), true), show(m, true));
  // the same statements as those of the lines
  LL_Stmt_Src src(f.lines, false);
  auto st = f.ll_stmts.begin();
  while (src.advance()) {
    LL_Stmt s(src.move());
    ok(("a statement is not in the list after " + w).c_str(),
       st != f.ll_stmts.end());
    ok(("line of a statement after " + w).c_str(), st->it() == s.it());
    eq(("size of a statement after " + w).c_str(), (long)st->size(),
       (long)s.size());
    ok(("place of a statement after " + w).c_str(),
       st->begin() == s.begin() && st->end() == s.end());
    eq(("position in a compound after " + w).c_str(), st->is_compound(),
       s.is_compound());
    eq(("label after " + w).c_str(), st->label(), s.label());
    eq(("label of the line after " + w).c_str(),
       s.is_compound() < 2 ? st->ll().label : 0, s.label());
    eq(("lines in front after " + w).c_str(), (long)st->prefix_lines.size(),
       (long)s.prefix_lines.size());
    for (size_t k = 0; k < s.prefix_lines.size(); ++k)
      ok(("a line in front after " + w).c_str(),
         st->prefix_lines[k] == s.prefix_lines[k]);
    ++st;
  }
  ok(("a statement is not in the lines after " + w).c_str(),
     st == f.ll_stmts.end());
  // and those of the file written and read again
  Words t;
  std::string all;
  for (auto const &l : f.lines)
    all += text(l);
  std::istringstream is(all);
  for (std::string l; std::getline(is, l);)
    t.push_back(l);
  Logical_File g;
  ok(("written text is accepted after " + w + ":\n" + all).c_str(),
     g.scan(t, "t", 72, File_Type::FREEFMT));
  g.make_stmts();
  eq(("statements read again after " + w + ":\n" + all).c_str(),
     show(view(g), false), show(m, false));
}

// s: physical lines (free form); i: (operation, statement, place) triples
void c26(Case const &c) {
  Quiet q;
  Logical_File f;
  if (!f.scan(c.s, "t", 72, File_Type::FREEFMT))
    throw Skip();
  f.make_stmts();
  if (f.ll_stmts.empty())
    throw Skip();
  for (auto &s : f.ll_stmts)
    if (std::isdigit(s.front().text()[0]))
      throw Skip(); // a statement that would be read as a label
  for (auto &l : f.lines) {
    // unfinished continuations, preprocessor lines inside a statement
    if (l.layout().back().is_continued())
      throw Skip();
    for (auto const &x : l.layout())
      if (!l.stmts().empty() && !x.is_fortran() && !x.is_trivial())
        throw Skip();
  }
  std::vector<M> m = view(f);
  check_file(f, m, "reading");
  static char const *const NEW[] = {"qq", "b + c", "'s'", "zz"};
  static Words const NEWW[] = {{"qq"}, {"b", "+", "c"}, {"'s'"}, {"zz"}};
  for (size_t p = 0; p + 2 < c.i.size(); p += 3) {
    long const n = (long)f.ll_stmts.size();
    long const k = std::abs(c.i[p + 1]) % n, x = std::abs(c.i[p + 2]);
    auto at = std::next(f.ll_stmts.begin(), k);
    long const len = (long)m[k].w.size();
    std::string const txt = std::string(" ") + NEW[x % 4] + " ";
    Words const &tw = NEWW[x % 4];
    bool plain = true; // (replace_stmt_text does not support comments inside)
    for (auto const &l : at->ll().layout())
      plain = plain && l.is_fortran();
    bool const comp = at->is_compound() > 0;
    char const *what = "";
    switch (std::abs(c.i[p]) % 9) {
    case 0: {
      what = "splitting before a statement";
      bool second = at->is_compound() > 1;
      eq("does splitting change anything", f.split_compound_before(at),
         second);
      break;
    }
    case 1:
      what = "isolating a statement";
      eq("does isolating change anything", f.isolate_stmt(at), comp);
      eq("alone on its line", (long)at->ll().stmts().size(), 1L);
      break;
    case 2:
    case 3: {
      bool after = std::abs(c.i[p]) % 9 == 3;
      what = after ? "adding a statement after the lines in front"
                   : "adding a statement";
      Logical_Line ll(std::string("new = 1"));
      auto r = after ? f.emplace_ll_stmt_after_prefix(at, std::move(ll), 7)
                     : f.emplace_ll_stmt(at, std::move(ll), 7);
      ok("the new statement stands before the other", std::next(r) == at);
      M s;
      s.w = {"new", "=", "1"};
      s.label = 0;
      if (after)
        s.prefix.swap(m[k].prefix);
      m.insert(m.begin() + k, s);
      break;
    }
    case 4: {
      what = "replacing a statement";
      if (!plain)
        continue;
      std::vector<std::string> t{"aa = bb"};
      m[k].w = {"aa", "=", "bb"};
      for (long j = 0; j < x % 3; ++j) {
        t.push_back("+ cc");
        m[k].w.insert(m[k].w.end(), {"+", "cc"});
      }
      f.replace_stmt_text(at, t, 7);
      eq("tag of a replaced statement", at->syntax_tag(), 7);
      break;
    }
    case 5: {
      what = "replacing a part of a statement";
      long b = x % len, e = std::min(len, b + 1 + x % 3);
      LL_TT_Range r(at->it(), std::next(at->begin(), b),
                    std::next(at->begin(), e));
      f.replace_stmt_substr(at, r, txt);
      m[k].w.erase(m[k].w.begin() + b, m[k].w.begin() + e);
      m[k].w.insert(m[k].w.begin() + b, tw.begin(), tw.end());
      break;
    }
    case 6: {
      what = "inserting after a token";
      long b = x % len;
      f.insert_text_after(at, std::next(at->begin(), b), txt);
      m[k].w.insert(m[k].w.begin() + b + 1, tw.begin(), tw.end());
      break;
    }
    case 7:
      what = "appending to a statement";
      f.append_stmt_text(at, txt);
      m[k].w.insert(m[k].w.end(), tw.begin(), tw.end());
      break;
    default: {
      what = "labelling a statement";
      int lab = x % 4 == 0 ? 0 : (int)(10 * x);
      bool ch = f.set_stmt_label(at, lab);
      eq("does labelling change anything", ch, lab != m[k].label);
      m[k].label = lab;
    }
    }
    check_file(f, m, what);
  }
}

char const *const L[] = {"a=1",   "10 a=1;b=2", "a=1; b=2; c=3 ! x", "! c", "",
                         ";a=1",  "a=1;",       "  call f(x) ; &",   "   d=4",
                         "x=a+ &", "#if X",     "  y=2;;z=3"};
void en(std::function<void(Case const &)> const &f) {
  for (long a = 0; a < 12; ++a)
    for (long b = 0; b < 12; ++b)
      for (long op = 0; op < 9; ++op)
        for (long k = 0; k < 3; ++k) {
          Case c;
          c.s = {L[a], L[b]};
          c.i = {op, k, (a + b + k) % 5};
          f(c);
        }
}
Case rnd(Rng &r) {
  Case c;
  int n = r.range(1, 6);
  while (n--)
    c.s.push_back(L[r.below(12)]);
  n = r.range(1, 5);
  while (n--)
    c.i.insert(c.i.end(), {r.below(9), r.below(12), r.below(10)});
  return c;
}

// ---- C22: fixed form to free form ---------------------------------------
// s: physical lines; i: last column
void c22(Case const &c) {
  Quiet q;
  if (c.i.empty() || c.i[0] < 10 || c.i[0] > 200)
    throw Skip();
  Logical_File f;
  if (!f.scan(c.s, "t", (int)c.i[0], File_Type::FIXEDFMT))
    throw Skip();
  // unfinished texts, code in the label field, a continuation of nothing
  for (auto &l : f.lines) {
    for (auto const &x : l.layout()) {
      if (!x.is_fortran())
        continue;
      std::string lab = c.s[x.linenum - 1].substr(0, 5);
      if (lab.find_first_not_of(" 0123456789\t") != std::string::npos ||
          (x.is_continuation() && lab != "     ") ||
          (x.has_label() && x.left_txt.size() > 5))
        throw Skip();
      size_t e = x.main_txt.find_last_not_of(" \t");
      if (!x.open_delim && e != std::string::npos && x.main_txt[e] == '&')
        throw Skip(); // (not Fortran, and a continuation in free form)
    }
    size_t k = l.layout().size() - 1;
    if (l.layout()[0].is_fortran() &&
        (l.layout()[k].open_delim || l.layout()[0].is_continuation()))
      throw Skip();
  }
  f.make_stmts();
  for (auto &s : f.ll_stmts) {
    if (std::isdigit(s.front().text()[0]))
      throw Skip(); // a statement that would be read as a label
    for (auto const &t : s) // no token of Fortran
      if (t.text() == "&" || t.token == Syntax_Tags::UNKNOWN ||
          t.token == Syntax_Tags::BAD)
        throw Skip();
  }
  std::vector<M> m = view(f);
  auto say = [](Logical_Line const &l) {
    std::string r;
    for (auto const &x : l.layout())
      if (x.is_comment()) {
        std::string t = x.left_txt;
        size_t b = t.find_first_not_of(" ");
        r += t.substr(b == std::string::npos ? t.size() : b + 1) + "\n";
      } else if (!x.is_fortran() && !x.is_blank())
        r += x.left_txt + "\n";
    return r;
  };
  std::string notes;
  for (auto const &l : f.lines)
    notes += say(l);
  bool fixed = false;
  for (auto const &l : f.lines)
    fixed = fixed || l.layout().front().is_fixed_format();
  eq("does conversion change anything", f.convert_fixed_to_free(), fixed);
  if (fixed)
    eq("source form", (int)f.file_info->file_type, (int)File_Type::FREEFMT);
  for (auto const &l : f.lines)
    for (auto const &x : l.layout())
      ok("a line still is in fixed form", !x.is_fixed_format());
  std::string all;
  for (auto const &l : f.lines)
    all += text(l);
  for (auto const &l : f.lines)
    for (auto const &x : l.layout()) {
      size_t b = x.right_txt.find('&'), e = x.right_txt.find('!');
      if (x.is_fortran() && b < e)
        ok(("something follows a continuation mark:\n" + all).c_str(),
           x.right_txt.find_first_not_of(" \t\r", b + 1) == e);
    }
  Words t;
  std::istringstream is(all);
  for (std::string l; std::getline(is, l);)
    t.push_back(l);
  Logical_File g;
  ok(("converted text is accepted:\n" + all).c_str(),
     g.scan(t, "t", 72, File_Type::FREEFMT));
  g.make_stmts();
  eq(("statements of the converted text:\n" + all).c_str(),
     show(view(g), false), show(m, false));
  std::string notes2;
  for (auto const &l : g.lines)
    notes2 += say(l);
  eq(("comments and other lines of the converted text:\n" + all).c_str(),
     notes2, notes);
  eq("converting again changes nothing", f.convert_fixed_to_free(), false);
}
char const *const F[] = {"      x=1",      "     &+1",      "      x='a",
                         "     &b'",       "c note",        "* note",
                         "! note",         "",              "#if X",
                         "      include 'f'", "10    y=2",  "  20  z=3 ! c",
                         "      a=1;b=2",  "     1  , c ! c", "     0u=1",
                         "30   0v=1",      "      call f(a,     over",
                         "   ! indented",  "     2name",    "\ttab=1",
                         "      w='a b' ! c", "      y='ab cdefghijklm",
                         "      y='ab           m", "     &",
                         "      x=1+          &", "     &2            & 9"};
int const NF = 26;
void en22(std::function<void(Case const &)> const &f) {
  for (long v = 0; v < NF * NF * NF; ++v) {
    Case c;
    long x = v;
    for (int k = 0; k < 3; ++k, x /= NF)
      c.s.push_back(F[x % NF]);
    c.i = {20};
    f(c);
  }
}
Case rnd22(Rng &r) {
  Case c;
  int n = r.range(1, 8);
  while (n--) {
    if (!r.chance(30)) {
      c.s.push_back(F[r.below(NF)]);
      continue;
    }
    // a line of its own: label field, column 6, body
    std::string s(r.chance(20) ? "  10 " : "     ");
    s += " &01"[r.below(4)];
    int m = r.range(0, 20);
    while (m--)
      s += "  ab=1'\"!&;,+("[r.below(14)];
    c.s.push_back(s);
  }
  c.i = {r.chance(50) ? 20 : 72};
  return c;
}
} // namespace

int main(int argc, char **argv) {
  props()["C26"] = {c26, en, rnd,
                    "every pair of 12 lines with every edit of each of its "
                    "first 3 statements, then random files of up to 6 lines "
                    "and histories of up to 5 edits"};
  props()["C22"] = {c22, en22, rnd22,
                    "every file of 3 of 26 fixed-form lines, then random "
                    "files of up to 8 lines"};
  return run(argc, argv);
}
