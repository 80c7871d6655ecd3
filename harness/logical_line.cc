// Executable statements of C11 (statements of a line) and C12 (tokens know
// where they stand).
#include "common.hh"
#include "flpr/File_Line.hh"
#include "flpr/LL_Stmt_Src.hh"
#include "flpr/Logical_File.hh"
#include "flpr/Syntax_Tags.hh"

using namespace FLPR;
using namespace hz;

namespace {
struct Quiet {
  std::streambuf *old;
  std::ostringstream o;
  Quiet() : old(std::cerr.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};

bool semi(Token_Text const &t) { return t.token == Syntax_Tags::TK_SEMICOLON; }

// the statements of a line: the non-empty runs between semicolons
using Run = std::pair<long, long>;
std::vector<Run> runs(Logical_Line const &ll, long &semis) {
  std::vector<Run> out;
  long k = 0, from = 0;
  semis = 0;
  for (auto const &t : ll.fragments()) {
    if (semi(t)) {
      ++semis;
      if (k > from)
        out.push_back({from, k});
      from = k + 1;
    }
    ++k;
  }
  if (k > from)
    out.push_back({from, k});
  return out;
}

void check_stmts(Logical_Line &ll) {
  long semis;
  std::vector<Run> r = runs(ll, semis);
  ok("statements are known", ll.has_stmts());
  eq("number of statements", (long)ll.stmts().size(), (long)r.size());
  eq("number of semicolons", (long)ll.num_semicolons(), semis);
  eq("has it several statements", ll.is_compound(), r.size() > 1);
  eq("are there empty statements", ll.has_empty_statements(),
     semis > 0 && (long)r.size() < semis + 1);
  for (size_t k = 0; k < r.size(); ++k) {
    TT_Range s = ll.stmts()[k];
    eq("statement size", (long)s.size(), r[k].second - r[k].first);
    ok("statement start",
       s.begin() == std::next(ll.fragments().begin(), r[k].first));
    ok("statement end",
       s.end() == std::next(ll.fragments().begin(), r[k].second));
  }
}

void same_tokens(Logical_Line const &a, Logical_Line const &b) {
  eq("number of tokens", (long)a.fragments().size(),
     (long)b.fragments().size());
  auto y = b.fragments().cbegin();
  for (auto const &x : a.fragments()) {
    eq("token", x.token, y->token);
    eq("text", x.text(), y->text());
    eq("line", x.main_txt_line(), y->main_txt_line());
    eq("column", x.main_txt_col(), y->main_txt_col());
    eq("end line", x.main_txt_eline(), y->main_txt_eline());
    eq("end column", x.main_txt_ecol(), y->main_txt_ecol());
    ++y;
  }
}

// s: physical lines (free form); i: which line to copy, how, which lines
// without statements to suppress (bits)
void c11(Case const &c) {
  if (c.i.size() < 3)
    throw Skip();
  Quiet q;
  Logical_File f;
  if (!f.scan(c.s, "t", 72, File_Type::FREEFMT) || f.lines.empty())
    throw Skip();
  long k = 0;
  for (auto &ll : f.lines) {
    check_stmts(ll);
    if (ll.stmts().empty() && (c.i[2] >> (k % 8)) & 1)
      ll.suppress = true;
    ++k;
  }
  // copies
  Logical_Line &src =
      *std::next(f.lines.begin(), std::abs(c.i[0]) % (long)f.lines.size());
  src.file_info = f.file_info;
  {
    Logical_Line keep(src);
    check_stmts(keep);
    Logical_Line other(std::string("q=1;r=2"));
    switch (std::abs(c.i[1]) % 5) {
    case 0: {
      Logical_Line a(src);
      check_stmts(a);
      same_tokens(a, keep);
      a.fragments().clear();
      a.clear_stmts();
      break;
    }
    case 1:
      other = src;
      check_stmts(other);
      same_tokens(other, keep);
      eq("label", other.label, src.label);
      eq("kind", (int)other.cat, (int)src.cat);
      eq("suppressed", other.suppress, src.suppress);
      eq("reformat", other.needs_reformat, src.needs_reformat);
      ok("file", other.file_info == src.file_info);
      eq("layout", (long)other.layout().size(), (long)src.layout().size());
      other.fragments().clear();
      other.clear_stmts();
      break;
    case 2: {
      Logical_Line t(src);
      Logical_Line a(std::move(t));
      check_stmts(a);
      same_tokens(a, keep);
      break;
    }
    case 3: {
      Logical_Line t(src);
      other = std::move(t);
      check_stmts(other);
      same_tokens(other, keep);
      break;
    }
    default: {
      std::vector<Logical_Line> v(3, src);
      for (auto &x : v) {
        check_stmts(x);
        same_tokens(x, keep);
      }
    }
    }
    check_stmts(src);
    same_tokens(src, keep);
  }
  // the statements of the file
  f.make_stmts();
  auto st = f.ll_stmts.begin();
  std::vector<LL_SEQ::iterator> prefix;
  long n = 0;
  for (auto it = f.lines.begin(); it != f.lines.end(); ++it) {
    if (it->stmts().empty()) {
      if (!it->suppress)
        prefix.push_back(it);
      continue;
    }
    size_t const m = it->stmts().size();
    for (size_t j = 0; j < m; ++j, ++st, ++n) {
      ok("a statement of the file is missing", st != f.ll_stmts.end());
      ok("the line of a statement", st->it() == it);
      ok("the tokens of a statement",
         st->begin() == it->stmts()[j].begin() &&
             st->end() == it->stmts()[j].end());
      eq("size of a statement", (long)st->size(),
         (long)it->stmts()[j].size());
      eq("label of a statement", st->label(), j == 0 ? it->label : 0);
      eq("position in a compound", st->is_compound(),
         m > 1 ? (int)j + 1 : 0);
      eq("lines before a statement", (long)st->prefix_lines.size(),
         j == 0 ? (long)prefix.size() : 0);
      for (size_t p = 0; j == 0 && p < prefix.size(); ++p)
        ok("a line before a statement", st->prefix_lines[p] == prefix[p]);
      ok("a fresh statement is bound to nothing", !st->has_hook());
    }
    prefix.clear();
  }
  ok("a statement too many", st == f.ll_stmts.end());
  eq("number of statements of the file", (long)f.ll_stmts.size(), n);
  // a source for one line, asked again and again
  for (auto it = f.lines.begin(); it != f.lines.end(); ++it) {
    LL_Stmt_Src one(it, false);
    size_t j = 0;
    while (one.advance()) {
      ok("a statement of the line too many", j < it->stmts().size());
      ok("the source has a statement", (bool)one);
      LL_Stmt s(one.move());
      ok("a statement of the line", s.begin() == it->stmts()[j].begin());
      ++j;
    }
    eq("statements of the line", (long)j, (long)it->stmts().size());
    ok("the source is at its end", !(bool)one);
  }
}

char const *const L11[] = {"a=1",       "10 a=1;b=2", ";",      ";;a=1", "a=1;",
                           "a=1;;b=2",  "a=1;b=2;c", "! c",    "",
                           "a=1; &",    "b=2 &",     "#if X",
                           "include 'f'", "x=';'",   "20 ;z=1"};
void en11(std::function<void(Case const &)> const &f) {
  for (int n = 1; n <= 3; ++n) {
    long total = 1;
    for (int k = 0; k < n; ++k)
      total *= 15;
    for (long v = 0; v < total; ++v) {
      Case c;
      c.i = {v % n, v % 5, v % 7};
      long x = v;
      for (int k = 0; k < n; ++k, x /= 15)
        c.s.push_back(L11[x % 15]);
      f(c);
    }
  }
}
Case r11(Rng &r) {
  Case c;
  int n = r.range(1, 7);
  while (n--) {
    if (r.chance(50))
      c.s.push_back(L11[r.below(15)]);
    else {
      std::string s = r.chance(20) ? "30 " : "";
      int m = r.range(1, 8);
      while (m--) {
        static char const *const w[] = {";", ";", " ", "a=1", "b", "call f(x)",
                                        "';'", "+"};
        s += w[r.below(8)];
      }
      c.s.push_back(s);
    }
  }
  c.i = {r.below(7), r.below(5), r.below(256)};
  return c;
}

// ---- C12 ----------------------------------------------------------------
using Words = std::vector<std::string>;

Words texts(Logical_Line const &ll) {
  Words w;
  for (auto const &t : ll.fragments())
    w.push_back(t.text());
  return w;
}
std::string show(Words const &w) {
  std::string s;
  for (auto const &x : w)
    s += "[" + x + "]";
  return s;
}

bool blank(std::string const &s) {
  return s.find_first_not_of(" \t") == std::string::npos;
}

// the body text from one place to another, joined as the scanner reads it
std::string between(Logical_Line const &ll, int bl, int bc, int el, int ec) {
  auto const &L = ll.layout();
  std::string s;
  int prev = -1;
  for (int k = bl; k <= el; ++k) {
    if (L[k].is_trivial())
      continue;
    if (prev >= 0) {
      if (!L[prev].right_space.empty())
        s += ' ';
      if (!L[k].left_space.empty())
        s += ' ';
    }
    int from = k == bl ? bc : 0;
    int to = k == el ? ec : (int)L[k].main_txt.size();
    ok("a token's columns lie in its line",
       from >= 0 && from <= to && to <= (int)L[k].main_txt.size());
    s += L[k].main_txt.substr(from, to - from);
    prev = k;
  }
  return s;
}

void check_places(Logical_Line const &ll, bool fresh) {
  int const n = (int)ll.layout().size();
  int pl = 0, pc = 0;
  bool first = true;
  for (auto const &t : ll.fragments()) {
    int const bl = t.main_txt_line(), bc = t.main_txt_col(),
              el = t.main_txt_eline(), ec = t.main_txt_ecol();
    std::ostringstream o;
    o << "token [" << t.text() << "] at " << bl << ',' << bc << '-' << el
      << ',' << ec;
    ok((o.str() + ": its lines exist").c_str(),
       0 <= bl && bl <= el && el < n);
    ok((o.str() + ": its lines are Fortran lines").c_str(),
       ll.layout()[bl].is_fortran() && ll.layout()[el].is_fortran());
    eq(o.str().c_str(), between(ll, bl, bc, el, ec), t.text());
    ok((o.str() + ": it starts before the previous one ends").c_str(),
       first || pl < bl || (pl == bl && pc <= bc));
    ok((o.str() + ": text between it and the previous one").c_str(),
       blank(between(ll, first ? 0 : pl, first ? 0 : pc, bl, bc)));
    if (fresh) {
      eq((o.str() + ": file line").c_str(), t.start_line,
         ll.layout()[bl].linenum);
      eq((o.str() + ": file column").c_str(), t.start_pos,
         ll.layout()[bl].main_first_col() + bc);
    }
    first = false;
    pl = el;
    pc = ec;
  }
  if (n > 0 && !ll.layout().empty()) {
    int e = (int)ll.layout().back().main_txt.size();
    if (ll.layout().back().is_trivial())
      e = 0;
    ok("text after the last token",
       blank(between(ll, first ? 0 : pl, first ? 0 : pc, n - 1, e)));
  }
}

std::string joined(Words const &w) {
  std::string s;
  for (auto const &x : w)
    s += x;
  return s;
}

// printing and reading again gives the same text
void check_print(Logical_Line const &ll, bool fixed, bool exact) {
  if (ll.fragments().empty() ||
      std::isdigit(ll.fragments().front().text()[0]))
    return; // (a leading number would be read as a label)
  size_t n = 0;
  for (auto const &l : ll.layout()) {
    if (!l.is_fortran())
      continue;
    if (blank(l.main_txt) || (fixed && l.size() > 72))
      return;
    ++n;
  }
  std::ostringstream o;
  o << ll;
  std::vector<std::string> t;
  std::istringstream is(o.str());
  for (std::string l; std::getline(is, l);)
    t.push_back(l);
  Logical_File f;
  ok(("printed text is accepted: " + o.str()).c_str(),
     f.scan(t, "t", 72, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT));
  Words w;
  long code = 0;
  for (auto const &x : f.lines) {
    Words y = texts(x);
    code += !y.empty();
    w.insert(w.end(), y.begin(), y.end());
  }
  eq(("one line when read again: " + o.str()).c_str(), code, 1L);
  if (exact)
    eq(("tokens when read again: " + o.str()).c_str(), show(w),
       show(texts(ll)));
  else
    eq(("text when read again: " + o.str()).c_str(), joined(w),
       joined(texts(ll)));
}

// exact: no two tokens have been put side by side that read as one
void want(char const *what, Logical_Line const &ll, Words const &w,
          bool exact = true) {
  if (exact)
    eq(what, show(texts(ll)), show(w));
  else
    eq(what, joined(texts(ll)), joined(w));
}

Words no_empty(Words const &w) {
  Words r;
  for (auto const &x : w) {
    if (x == ";" && (r.empty() || r.back() == ";"))
      continue;
    r.push_back(x);
  }
  while (!r.empty() && r.back() == ";")
    r.pop_back();
  return r;
}

// s: the physical lines; i: form, then (operation, token, text) triples
void c12(Case const &c) {
  if (c.i.empty() || c.i[0] < 0 || c.i[0] > 1)
    throw Skip();
  bool const fixed = c.i[0] == 1;
  Quiet q;
  Logical_File f;
  if (!f.scan(c.s, "t", 72,
              fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT) ||
      f.lines.size() != 1 || f.lines.front().fragments().empty())
    throw Skip();
  for (auto const &l : f.lines.front().layout())
    if (!l.is_fortran() && !l.is_trivial())
      throw Skip();
  Logical_Line ll(f.lines.front());
  check_stmts(ll);
  check_places(ll, true);
  check_print(ll, fixed, true);
  static char const *const NEW[] = {"q", "longer_name", "'s'", "zz"};
  bool exact = true;
  for (size_t p = 1; p + 2 < c.i.size(); p += 3) {
    long const n = (long)ll.fragments().size();
    if (n == 0)
      break;
    long const k = std::abs(c.i[p + 1]) % n;
    auto at = std::next(ll.fragments().begin(), k);
    bool const split = at->main_txt_line() != at->main_txt_eline();
    std::string const txt = NEW[std::abs(c.i[p + 2]) % 4];
    Words w = texts(ll);
    switch (std::abs(c.i[p]) % 9) {
    case 0:
      if (split || w[k] == ";")
        continue;
      ll.replace_fragment(at, Syntax_Tags::TK_NAME, txt);
      w[k] = txt;
      want("tokens after replacing one", ll, w);
      exact = false;
      break;
    case 1:
      if (split)
        continue;
      ll.remove_fragment(at);
      w.erase(w.begin() + k);
      want("tokens after removing one", ll, w);
      exact = false;
      break;
    case 2: {
      bool const end = c.i[p + 1] % 5 == 0;
      if (end ? ll.layout()[ll.fragments().back().main_txt_eline()].open_delim
              : k > 0 && at->main_txt_col() == 0)
        continue;
      ll.insert_text_before(end ? ll.fragments().end() : at, " " + txt + " ");
      w.insert(end ? w.end() : w.begin() + k, txt);
      want("tokens after inserting before one", ll, w, exact);
      break;
    }
    case 3:
      ll.insert_text_after(at, " " + txt + " ");
      w.insert(w.begin() + k + 1, txt);
      want("tokens after inserting after one", ll, w, exact);
      break;
    case 4: {
      // a stretch of one statement
      long e = k;
      while (e < n && w[e] != ";" && e < k + 1 + std::abs(c.i[p + 2]) % 5)
        ++e;
      if (e == k)
        continue;
      TT_Range r(at, std::next(ll.fragments().begin(), e));
      ll.replace_stmt_substr(r, " " + txt + " ");
      w.erase(w.begin() + k, w.begin() + e);
      w.insert(w.begin() + k, txt);
      want("tokens after replacing a stretch", ll, w, exact);
      break;
    }
    case 5: {
      Logical_Line rest;
      bool res = ll.split_after(at, rest);
      Words a(w.begin(), w.begin() + k + 1), b(w.begin() + k + 1, w.end());
      want("tokens before the split", ll, res ? a : w);
      if (b.empty())
        ok("nothing to split off", !res || rest.fragments().empty());
      else if (res) {
        Words g = texts(rest);
        while (!b.empty() && b[0] == ";")
          b.erase(b.begin());
        while (!g.empty() && g[0] == ";")
          g.erase(g.begin());
        eq("tokens after the split", show(g), show(b));
      } else {
        while (!b.empty() && b[0] == ";")
          b.erase(b.begin());
        ok("tokens lost by the split", b.empty());
      }
      ll.init_stmts();
      rest.init_stmts();
      check_stmts(rest);
      check_places(rest, false);
      if (!fixed)
        check_print(rest, fixed, false);
      if (c.i[p + 2] % 2 && res && !rest.fragments().empty()) {
        check_places(ll, false);
        ll = rest;
      }
      exact = false;
      break;
    }
    case 6: {
      if (fixed)
        continue;
      bool ch = ll.remove_empty_statements();
      Words g = no_empty(w);
      eq("was an empty statement removed", ch, g.size() != w.size());
      want("tokens after removing empty statements", ll, g);
      break;
    }
    case 7:
      if (fixed)
        continue;
      ll.text_from_frags();
      want("tokens after laying the text out again", ll, w);
      break;
    default: {
      if (ll.is_compound() || fixed)
        continue;
      size_t code = 0;
      for (auto const &l : ll.layout())
        code += l.is_fortran();
      if (code != ll.layout().size() || ll.layout().back().is_continued())
        continue;
      std::vector<std::string> t;
      w.clear();
      for (long j = 0; j <= std::abs(c.i[p + 2]) % 4; ++j) {
        t.push_back(j == 0 ? "nn = aa" : "+ bb");
        if (j == 0)
          w.insert(w.end(), {"nn", "=", "aa"});
        else
          w.insert(w.end(), {"+", "bb"});
      }
      ll.replace_main_text(t);
      want("tokens after replacing the text", ll, w);
      break;
    }
    }
    check_stmts(ll);
    check_places(ll, false);
    if (!fixed)
      check_print(ll, fixed, exact);
  }
}

char const *const B12[] = {"x = a+b",    "if (a) call f(x, 'y')", "a=1; b=2",
                           "a=1;; b=2;", "enddo",                 "x=a;endif;y",
                           ";a=1",       "call aa(bb, cc)",
    "x = a_name_of_some_length + another_name_of_some_length + a_third; y = 1",
    "call f('a text that is longer than the seventy six columns there are on a "
    "line when it is laid out again', b)"};
int const NB = 10;
Case lines12(int form, int shape, int b1, int b2) {
  Case c;
  c.i = {form};
  if (form == 1) { // these two would run beyond column 72
    b1 %= NB - 2;
    b2 %= NB - 2;
  }
  std::string x = B12[b1], y = B12[b2];
  if (form == 0)
    switch (shape) {
    case 0: c.s = {x}; break;
    case 1: c.s = {"  " + x + " &", "    + " + y + " ! c"}; break;
    case 2: c.s = {"  " + x + " & ! c", "", "! d", "   &  + " + y}; break;
    case 3: c.s = {"  z = ab&", "  &cd + " + y}; break;
    case 4: c.s = {"  z = 'ab&", "! c", "  &cd' + " + y}; break;
    case 5: c.s = {"10 " + x + " ! c"}; break;
    case 6: c.s = {x + "&", "&" + y + "&", "  &"  + x}; break;
    default: c.s = {x + " &", "", "! e", "+ q &", "+ " + y}; break;
    }
  else
    switch (shape) {
    case 0: c.s = {"      " + x}; break;
    case 1: c.s = {"10    " + x, "     & + " + y}; break;
    case 2: c.s = {"      " + x, "c", "", "     &+ " + y}; break;
    case 3: c.s = {"      z = ab", "     1cd + " + y}; break;
    case 4: c.s = {"      end", "     1do"}; break;
    default: c.s = {"      " + x + " ! c", "     1  + " + y}; break;
    }
  return c;
}
void en12(std::function<void(Case const &)> const &f) {
  for (int form = 0; form < 2; ++form)
    for (int sh = 0; sh < 8; ++sh)
      for (int a = 0; a < NB; ++a)
        for (int b = 0; b < NB; ++b) {
          Case c = lines12(form, sh, a, b);
          f(c);
          for (int op = 0; op < 9; ++op) {
            Case d = c;
            d.i.insert(d.i.end(), {op, a + b, b});
            f(d);
          }
        }
}
Case r12(Rng &r) {
  Case c = lines12(r.chance(25), (int)r.below(8), (int)r.below(NB),
                   (int)r.below(NB));
  int n = r.range(1, 5);
  while (n--)
    c.i.insert(c.i.end(), {r.below(9), r.below(30), r.below(8)});
  return c;
}
} // namespace

int main(int argc, char **argv) {
  props()["C11"] = {c11, en11, r11,
                    "every file of up to 3 of 15 lines, then random ones"};
  props()["C12"] = {c12, en12, r12,
                    "8 line shapes of 10 by 10 bodies in both forms, every "
                    "edit of each once, then random histories of up to 5 "
                    "edits"};
  return run(argc, argv);
}
