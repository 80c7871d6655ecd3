// Executable statement of the physical-line properties (C01..C08).
#include "common.hh"
#include "flpr/File_Line.hh"
#include <algorithm>
#include <cctype>

using FLPR::File_Line;
using namespace hz;
using ST = size_t;
static constexpr ST NP = std::string::npos;

namespace {
bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
bool dig(char c) { return c >= '0' && c <= '9'; }
char up(char c) { return c >= 'a' && c <= 'z' ? (char)(c - 32) : c; }
char at(std::string const &s, ST i) { return i < s.size() ? s[i] : '\0'; }

bool directive(std::string const &s, ST p) {
  return s.compare(std::min(p + 1, s.size()), 5, "#flpr") == 0;
}
bool literal(std::string const &s, ST p) {
  return directive(s, p) &&
         s.compare(std::min(p + 9, s.size()), 8, " literal") == 0;
}
bool include(std::string const &s, ST p) {
  std::string w = s.substr(std::min(p, s.size()), 7);
  for (auto &c : w)
    c = up(c);
  if (w != "INCLUDE")
    return false;
  ST k = p + 7;
  while (at(s, k) == ' ')
    ++k;
  return at(s, k) == '\'' || at(s, k) == '"';
}
char step(char ctx, char c) {
  if (!ctx)
    return c == '\'' || c == '"' ? c : '\0';
  return c == ctx ? '\0' : ctx;
}

struct Want {
  bool throws = false;
  std::string lt, ls, mt, rs, rt;
  char od = 0;
  bool blank = 0, comment = 0, continued = 0, continuation = 0, label = 0,
       pp = 0, inc = 0, fpp = 0, flit = 0, fixed = 0;
  bool lit_out = false;
};

void split_tail(Want &w, std::string body) {
  if (!w.od) {
    ST e = body.size();
    while (e > 0 && (body[e - 1] == ' ' || body[e - 1] == '\t'))
      --e;
    w.rs = body.substr(e);
    body.erase(e);
  }
  w.mt = body;
}

Want want_free(std::string const &s, char pd, bool pc, bool lit) {
  Want w;
  w.lit_out = lit;
  ST ri = 0;
  while (ri < s.size() && (s[ri] == ' ' || s[ri] == '\t' || s[ri] == '\r'))
    ++ri;
  bool none = ri == s.size();
  char c = none ? '\0' : s[ri];
  w.lt = s;
  if (lit) {
    w.flit = true;
    if (!none && c == '!' && literal(s, ri))
      w.lit_out = false;
    return w;
  }
  if (none) {
    w.blank = true;
    return w;
  }
  if (ri == 0 && c == '#') {
    w.pp = true;
    return w;
  }
  if (include(s, ri)) {
    w.inc = true;
    return w;
  }
  if (c == '!') {
    if (literal(s, ri)) {
      w.flit = true;
      w.lit_out = true;
    } else if (directive(s, ri))
      w.fpp = true;
    else {
      w.comment = true;
      w.continued = pc;
    }
    return w;
  }
  ST left = 0, m = ri;
  if (!pc && dig(c)) {
    w.label = true;
    ST k = ri;
    while (k < s.size() && k < ri + 6 && dig(s[k]))
      ++k;
    left = k;
    while (k < s.size() && ws(s[k]))
      ++k;
    m = k;
  } else if (c == '&') {
    w.continuation = true;
    left = m = ri + 1;
  }
  w.lt = s.substr(0, left);
  w.ls = s.substr(left, m - left);
  char ctx = pd;
  ST t = m;
  for (; t < s.size(); ++t) {
    if (!ctx && (s[t] == '!' || s[t] == '&'))
      break;
    if (ctx && s[t] == '&') {
      bool rest = true;
      for (ST k = t + 1; k < s.size(); ++k)
        rest = rest && ws(s[k]);
      if (rest)
        break;
    }
    ctx = step(ctx, s[t]);
  }
  if (t == s.size() && ctx) {
    w.throws = true;
    return w;
  }
  w.od = ctx;
  w.rt = s.substr(t);
  w.continued = at(s, t) == '&';
  split_tail(w, s.substr(m, t - m));
  return w;
}

std::string untab(std::string const &s) {
  ST b = s.find('\t');
  if (b >= 6)
    return s;
  ST e = b;
  while (e < s.size() && s[e] == '\t')
    ++e;
  return s.substr(0, b) + std::string(6 * (e - b), ' ') + s.substr(e);
}

Want want_fixed(std::string const &raw, char pd, int lc) {
  Want w;
  w.fixed = true;
  std::string s = untab(raw);
  ST N = s.size();
  ST ri = s.find_first_not_of(" \t\r");
  w.lt = s;
  if (ri == NP) {
    w.blank = true;
    return w;
  }
  char c = s[ri];
  if (lc > 0 && ri >= (ST)lc) {
    w.comment = true;
    if (c != '!')
      w.lt = s.substr(0, ri) + "! " + s.substr(ri);
    return w;
  }
  if (ri != 5) {
    if (ri == 0 && c == '#') {
      w.pp = true;
      return w;
    }
    if (include(s, ri)) {
      w.inc = true;
      return w;
    }
    if (c == '!' || (ri == 0 && (c == '*' || up(c) == 'C'))) {
      if (literal(s, ri))
        w.throws = true;
      else if (directive(s, ri))
        w.fpp = true;
      else
        w.comment = true;
      return w;
    }
  }
  ST left = 0, m = ri;
  if (ri == 5) {
    left = m = 6;
    w.continuation = c != '0';
  } else if (ri < 5 && dig(c)) {
    w.label = true;
    ST k = ri;
    while (k < N && k < 6 && dig(s[k]))
      ++k;
    left = m = k;
  }
  if (left && !pd) {
    while (m < N && ws(s[m]))
      ++m;
    if (m == N || (lc > 0 && m >= (ST)lc)) {
      w.blank = true;
      return w;
    }
  }
  w.lt = s.substr(0, left);
  w.ls = m > 6 ? s.substr(6, m - 6) : "";
  ST e = lc > 0 && (ST)lc < N ? (ST)lc : N;
  char ctx = pd;
  ST t = m;
  for (; t < e; ++t) {
    if (!ctx && s[t] == '!')
      break;
    ctx = step(ctx, s[t]);
  }
  if (t <= m) {
    w.throws = true;
    return w;
  }
  w.od = ctx;
  w.rt = s.substr(t);
  if (t < N && lc > 0 && t == (ST)lc) {
    ST k = w.rt.find_first_not_of(" \t\r");
    if (k == NP)
      w.rt.clear();
    else if (w.rt[k] != '&' && w.rt[k] != '!')
      w.rt = "! " + w.rt;
  }
  split_tail(w, s.substr(m, t - m));
  return w;
}

char delim(long v) { return v == 39 ? '\'' : v == 34 ? '"' : '\0'; }

struct Got {
  bool threw = false;
  File_Line l;
  bool lit = false;
};

Got run_free(Case const &c) {
  Got g;
  g.lit = c.i[3] != 0;
  try {
    g.l = File_Line::analyze_free((int)c.i[0], c.s[0], delim(c.i[1]),
                                  c.i[2] != 0, g.lit);
  } catch (std::exception const &) {
    g.threw = true;
  }
  return g;
}
Got run_fixed(Case const &c) {
  Got g;
  try {
    g.l = File_Line::analyze_fixed((int)c.i[0], c.s[0], delim(c.i[1]),
                                   (int)c.i[2]);
  } catch (std::exception const &) {
    g.threw = true;
  }
  return g;
}
std::string cat(File_Line const &l) {
  return l.left_txt + l.left_space + l.main_txt + l.right_space + l.right_txt;
}
bool allws(std::string const &s) {
  return std::all_of(s.begin(), s.end(), ws);
}
void fields(Want const &w, File_Line const &l) {
  eq("left text", l.left_txt, w.lt);
  eq("left space", l.left_space, w.ls);
  eq("body", l.main_txt, w.mt);
  eq("right space", l.right_space, w.rs);
  eq("right text", l.right_txt, w.rt);
}
void flags(Want const &w, File_Line const &l) {
  eq("blank", l.is_blank(), w.blank);
  eq("comment", l.is_comment(), w.comment);
  eq("continued", l.is_continued(), w.continued);
  eq("continuation", l.is_continuation(), w.continuation);
  eq("label", l.has_label(), w.label);
  eq("preprocessor", l.is_preprocessor(), w.pp);
  eq("include", l.is_include(), w.inc);
  eq("directive", l.is_flpr_pp(), w.fpp);
  eq("literal", l.is_flpr_lit(), w.flit);
  eq("fixed format", l.is_fixed_format(), w.fixed);
  eq("trivial", l.is_trivial(), w.blank || w.comment);
  eq("fortran", l.is_fortran(),
     !(w.blank || w.comment || w.pp || w.inc || w.fpp || w.flit));
}

void c01(Case const &c) {
  Got g = run_free(c);
  if (g.threw)
    return;
  eq("concatenated fields", cat(g.l), c.s[0]);
  eq("line number", g.l.linenum, (int)c.i[0]);
  ok("left space holds only whitespace", allws(g.l.left_space));
  ok("right space holds only whitespace", allws(g.l.right_space));
  if (!g.l.is_fortran())
    eq("a line that is not Fortran is kept whole", g.l.left_txt, c.s[0]);
  std::ostringstream os;
  os << g.l;
  eq("printed line", os.str(), c.s[0]);
}
void c02(Case const &c) {
  Got g = run_free(c);
  Want w = want_free(c.s[0], delim(c.i[1]), c.i[2], c.i[3]);
  eq("throws", g.threw, w.throws);
  if (g.threw)
    return;
  eq("right text", g.l.right_txt, w.rt);
  eq("open delimiter", (int)g.l.open_delim, (int)w.od);
  eq("continued", g.l.is_continued(), w.continued);
}
void c03(Case const &c) {
  Got g = run_free(c);
  Want w = want_free(c.s[0], delim(c.i[1]), c.i[2], c.i[3]);
  if (g.threw || w.throws)
    return;
  flags(w, g.l);
  fields(w, g.l);
  eq("in literal block", g.lit, w.lit_out);
}
void fixed_dom(Case const &c) {
  if (c.i[2] > 0 && c.i[2] < 6)
    throw Skip();
}
void c04(Case const &c) {
  fixed_dom(c);
  Got g = run_fixed(c);
  Want w = want_fixed(c.s[0], delim(c.i[1]), (int)c.i[2]);
  if (g.threw || w.throws)
    return;
  fields(w, g.l);
  eq("line number", g.l.linenum, (int)c.i[0]);
}
void c05(Case const &c) {
  fixed_dom(c);
  Got g = run_fixed(c);
  Want w = want_fixed(c.s[0], delim(c.i[1]), (int)c.i[2]);
  eq("throws", g.threw, w.throws);
  if (g.threw)
    return;
  flags(w, g.l);
  eq("open delimiter", (int)g.l.open_delim, (int)w.od);
  eq("left text", g.l.left_txt, w.lt);
  eq("right text", g.l.right_txt, w.rt);
}

// ---------------------------------------------------------- editing members
// case: the five text fields; linenum, open_delim, the ten flags (declaration
// order), argument
using CF = File_Line::class_flags;
File_Line record(Case const &c) {
  if (c.s.size() < 5 || c.i.size() < 12)
    throw Skip();
  File_Line l;
  l.left_txt = c.s[0];
  l.left_space = c.s[1];
  l.main_txt = c.s[2];
  l.right_space = c.s[3];
  l.right_txt = c.s[4];
  l.linenum = (int)c.i[0];
  l.open_delim = delim(c.i[1]);
  for (int k = 0; k < 10; ++k)
    if (c.i[2 + k])
      l.set_classification((CF)k);
  return l;
}
Case flat(File_Line const &l, long arg) {
  Case c;
  c.s = {l.left_txt, l.left_space, l.main_txt, l.right_space, l.right_txt};
  c.i = {l.linenum, l.open_delim, l.is_blank(), l.is_comment(),
         l.is_continued(), l.is_continuation(), l.has_label(),
         l.is_preprocessor(), l.is_include(), l.is_flpr_pp(), l.is_flpr_lit(),
         l.is_fixed_format(), arg};
  return c;
}
std::vector<bool> bits(File_Line const &l) {
  return {l.is_blank(), l.is_comment(), l.is_continued(), l.is_continuation(),
          l.has_label(), l.is_preprocessor(), l.is_include(), l.is_flpr_pp(),
          l.is_flpr_lit(), l.is_fixed_format()};
}
bool allc(std::string const &s, char const *set) {
  return s.find_first_not_of(set) == NP;
}
bool trailing(std::string const &r, ST i, char const *set) {
  ST q = r.find_first_not_of(" \t\n\v\f\r", i);
  return q == NP || strchr(set, r[q]);
}
bool comment_a(File_Line const &l) {
  return l.left_space.empty() && l.main_txt.empty() &&
         l.right_space.empty() && l.right_txt.empty();
}
bool comment_b(File_Line const &l) {
  return allc(l.left_txt, " ") && allc(l.main_txt, " ") &&
         at(l.right_txt, 0) == '!';
}
bool wf(File_Line const &l) {
  bool fo = l.is_fortran(), fx = l.is_fixed_format();
  if (!allws(l.left_space) || !allws(l.right_space))
    return false;
  if (l.is_comment() && !comment_a(l) && !comment_b(l))
    return false;
  if (fo && l.is_continued() && at(l.right_txt, 0) != '&')
    return false;
  if (fo && !fx && !trailing(l.right_txt, 0, "!&"))
    return false;
  if (fo && !fx && l.is_continuation()) {
    if (l.left_txt.empty() || l.left_txt.back() != '&' || l.has_label() ||
        !allc(l.left_txt.substr(0, l.left_txt.size() - 1), " \t\r"))
      return false;
  }
  if (fo && !fx && !l.has_label() && !l.is_continuation() &&
      !l.left_txt.empty())
    return false;
  if (fo && l.has_label() && (l.left_txt.empty() || l.is_continuation()))
    return false;
  if (fo && fx && l.left_txt.size() > 6)
    return false;
  return true;
}
void need(File_Line const &l) {
  if (!wf(l))
    throw Skip();
}
bool same_text(File_Line const &a, File_Line const &b) {
  return a.left_txt == b.left_txt && a.left_space == b.left_space &&
         a.main_txt == b.main_txt && a.right_space == b.right_space &&
         a.right_txt == b.right_txt;
}
void same_but(File_Line const &a, File_Line const &b, int flag,
              char const *what) {
  auto x = bits(a), y = bits(b);
  for (int k = 0; k < 10; ++k)
    if (k != flag && x[(size_t)k] != y[(size_t)k])
      throw Failure(std::string(what) + ": flag " + std::to_string(k) +
                    " changed");
  eq("line number", b.linenum, a.linenum);
  eq("open delimiter", (int)b.open_delim, (int)a.open_delim);
}
ST first_of(std::string const &s, char const *not_in, ST from = 0) {
  return s.find_first_not_of(not_in, from);
}

void c06(Case const &c) {
  File_Line a = record(c);
  need(a);
  long n = c.i.size() > 12 ? c.i[12] : 0;
  if (n < 0 || n > 100000)
    throw Skip();
  ST p = first_of(a.left_txt, " \t\r");
  bool bang = p != NP && a.left_txt[p] == '!';
  bool fx = a.is_fixed_format(), fo = a.is_fortran();
  // reported indentation
  int g = a.get_leading_spaces();
  if (fo && !fx && !a.main_txt.empty())
    eq("indentation of the body", g,
       (int)(a.left_txt.size() + a.left_space.size()));
  if (a.is_comment() && comment_a(a) && bang)
    eq("indentation of the comment", g, (int)p);
  if (a.is_comment() && comment_b(a))
    eq("indentation of the kept comment", g,
       (int)(a.size() - a.right_txt.size()));
  if (!fo && !a.is_comment())
    eq("no indentation", g, 0);
  File_Line b = a;
  bool r = b.set_leading_spaces((int)n);
  eq("reported change", r, !same_text(a, b));
  same_but(a, b, -1, "re-indent");
  eq("body", b.main_txt, a.main_txt);
  eq("trailing text", b.right_txt, a.right_txt);
  ok("space fields", allws(b.left_space) && allws(b.right_space));
  ok("line well formed", wf(b));
  if (a.is_comment() && comment_a(a) && bang) {
    ST nb = first_of(a.left_txt, " \t", p + 1);
    ok("comment starts at the column asked for",
       first_of(b.left_txt, " \t\r") == (ST)n && b.left_txt[(ST)n] == '!');
    ST nb2 = first_of(b.left_txt, " \t", (ST)n + 1);
    eq("comment text", nb2 == NP ? "" : b.left_txt.substr(nb2),
       nb == NP ? "" : a.left_txt.substr(nb));
    if (p != 0)
      eq("comment", b.left_txt.substr((ST)n), a.left_txt.substr(p));
    return;
  }
  if (!fo) {
    ok("other lines are left alone", same_text(a, b) && !r);
    return;
  }
  if (!fx && a.is_continuation()) {
    ST q = first_of(b.left_txt, " \t\r");
    ok("continuation mark", q != NP && b.left_txt.substr(q) == "&");
    // moved as far as the blanks before the mark allow
    long at0 = (long)a.left_txt.size() + (long)a.left_space.size();
    if (n > at0 && !(n == at0))
      eq("continuation body column",
         (long)(b.left_txt.size() + b.left_space.size()), n);
  } else
    eq("control field", b.left_txt, a.left_txt);
  if (a.left_txt.empty())
    eq("body column", (long)b.left_space.size(), n);
  else if (a.has_label())
    eq("blanks after the label", (long)b.left_space.size(),
       (long)a.left_txt.size() < n ? n - (long)a.left_txt.size() : 1L);
  long shift = (long)(b.left_txt.size() + b.left_space.size()) -
               (long)(a.left_txt.size() + a.left_space.size());
  long rs = (long)a.right_space.size(), want = rs;
  if (a.right_txt.find('!') != NP && shift != 0)
    want = shift < 0 ? rs - shift : std::max(rs ? 1L : 0L, rs - shift);
  eq("blanks before the trailing text", (long)b.right_space.size(), want);
}

void c07(Case const &c) {
  File_Line const a = record(c);
  need(a);
  std::string const R = a.right_txt;
  {
    File_Line b = a;
    b.make_uncontinued();
    same_but(a, b, (int)CF::continued, "make_uncontinued");
    ok("not continued", !b.is_continued());
    eq("left", b.left_txt + "|" + b.left_space + "|" + b.main_txt,
       a.left_txt + "|" + a.left_space + "|" + a.main_txt);
    ST q = R.empty() ? NP : first_of(R, " ", R[0] == '&');
    if (q == NP) {
      eq("right text", b.right_txt, "");
      eq("right space", b.right_space, "");
    } else {
      eq("right text", b.right_txt, R.substr(q));
      eq("right space", b.right_space, a.right_space + std::string(q, ' '));
    }
    if (at(R, 0) != '&' || trailing(R, 1, "!"))
      ok("uncontinued line well formed", wf(b));
  }
  if (a.is_fortran()) {
    File_Line b = a;
    b.make_continued();
    same_but(a, b, (int)CF::continued, "make_continued");
    ok("continued", b.is_continued());
    eq("left", b.left_txt + "|" + b.left_space + "|" + b.main_txt,
       a.left_txt + "|" + a.left_space + "|" + a.main_txt);
    if (at(R, 0) == '&')
      ok("already continued", same_text(a, b));
    else {
      eq("right text", b.right_txt, R.empty() ? "&" : "& " + R);
      ok("blank before &", !b.right_space.empty() && allws(b.right_space));
      if (!R.empty() && a.right_space.size() > 2)
        eq("comment column", b.right_space.size() + 2, a.right_space.size());
      ok("no blanks added",
         b.right_space.size() <= std::max<ST>(1, a.right_space.size()));
    }
    ok("continued line well formed", wf(b));
  }
  auto only = [&](File_Line const &b, CF f, char const *w) {
    auto x = bits(b);
    for (int k = 0; k < 10; ++k)
      eq(w, (bool)x[(size_t)k],
         k == (int)f || (k == (int)CF::fixed_format && a.is_fixed_format()));
    eq("line number", b.linenum, a.linenum);
  };
  {
    File_Line b = a;
    b.make_preprocessor();
    only(b, CF::preprocessor, "preprocessor flags");
    eq("preprocessor text", b.left_txt, cat(a));
    eq("preprocessor size", b.size(), a.size());
    ok("other fields empty", comment_a(b));
  }
  {
    File_Line b = a;
    b.make_blank();
    only(b, CF::blank, "blank flags");
    eq("blank text", cat(b), "");
  }
  ST q = R.find('!');
  if ((a.is_fortran() || a.is_comment() || a.is_blank()) &&
      (q == NP || q == 0 || allc(R.substr(1, q - 1), " "))) {
    File_Line b = a;
    b.make_comment_or_blank();
    if (a.is_comment()) {
      ok("a comment line is left alone", same_text(a, b));
      same_but(a, b, -1, "make_comment_or_blank");
    } else if (a.is_blank() || q == NP) {
      only(b, CF::blank, "blank flags");
      eq("blank text", cat(b), "");
    } else {
      only(b, CF::comment, "comment flags");
      eq("comment", b.right_txt, R.substr(q));
      ok("blank before the comment",
         allc(b.left_txt, " ") && allws(b.left_space) &&
             allc(b.main_txt, " ") && allws(b.right_space));
      eq("comment column", b.size() - b.right_txt.size(),
         (a.is_fixed_format() ? 6 : a.left_txt.size()) + a.left_space.size() +
             a.main_txt.size() + a.right_space.size() + q);
      ok("comment line well formed", wf(b));
    }
  }
  if (first_of(a.main_txt, " ") != NP) {
    File_Line b = a;
    b.unspace_main();
    same_but(a, b, -1, "unspace_main");
    ST f = first_of(a.main_txt, " "), l = a.main_txt.find_last_not_of(' ');
    eq("body", b.main_txt, a.main_txt.substr(f, l + 1 - f));
    eq("left space", b.left_space, a.left_space + std::string(f, ' '));
    eq("right space", b.right_space,
       a.right_space + std::string(a.main_txt.size() - l - 1, ' '));
    eq("left text", b.left_txt, a.left_txt);
    eq("right text", b.right_txt, R);
  }
  {
    File_Line b = a, d;
    d.linenum = 77;
    d.swap(b);
    ok("swap", same_text(a, d) && b.linenum == 77 && cat(b).empty());
    same_but(a, d, -1, "swap");
  }
}

void c08(Case const &c) {
  File_Line const a = record(c);
  need(a);
  long n = c.i.size() > 12 ? c.i[12] : 0;
  if (n < 0 || n > 99999 || !a.is_fortran() || a.is_continuation() ||
      !(a.left_txt.empty() || a.has_label()))
    throw Skip();
  File_Line b = a;
  bool r = b.set_label((int)n);
  eq("result", r, n != 0 || a.has_label());
  eq("label flag", b.has_label(), n != 0);
  same_but(a, b, (int)CF::label, "set_label");
  eq("rest of the line", b.main_txt + "|" + b.right_space + "|" + b.right_txt,
     a.main_txt + "|" + a.right_space + "|" + a.right_txt);
  std::string num = n ? std::to_string(n) : "";
  if (n && a.is_fixed_format())
    num.append(6 - num.size(), ' ');
  eq("label field", b.left_txt, num);
  ok("left space", allws(b.left_space));
  if (!a.is_fixed_format()) {
    ST oc = a.left_txt.size() + a.left_space.size(),
       nc = b.left_txt.size() + b.left_space.size();
    if (n == 0 || num.size() + 1 < oc)
      eq("body column", nc, oc);
    if (n && (!a.has_label() || !a.left_space.empty()))
      ok("label separated from the body", !b.left_space.empty());
  }
  ok("labelled line well formed", wf(b));
}

std::vector<std::string> const FR{
    " ",     "  ",    "\t",    "      ", "\r",      "\v",       "a",
    "x=1",   "C",     "c",     "*",      "#",       "!",        "&",
    "'",     "\"",    "''",    "0",      "1",       "12",       "12345",
    "1234567", "if(", ");",    "include", "INCLUDE '", "include \"f\"",
    "!#flpr", "!#flpr    literal", "!#flpr    literals", "!#flprX",
    "c#flpr", "C#flpr    literal", "! cmt", "& ! c", "\xe9", "\x80", "end",
    "&  ",   "'&", "\"& ", "print *,'a!b", "     ", "     +", "     0",
    "include'x'", "Include   'y'", "!", "iNcLuDe\t'z'", "_", ";", "\f"};

Case rnd_free(Rng &r) {
  Case c;
  c.s.push_back(random_text(r, FR, 8));
  c.i = {r.range(-1, 5), r.chance(50) ? 0 : (r.chance(50) ? 39 : 34),
         r.below(2), r.chance(15)};
  return c;
}
Case rnd_fixed(Rng &r) {
  Case c;
  std::string s = random_text(r, FR, 8);
  if (r.chance(50))
    s = std::string((size_t)r.range(0, 8), ' ') + s;
  if (r.chance(15)) // around the usual last column
    s = s + std::string((size_t)r.range(40, 75), r.chance(50) ? ' ' : 'z') +
        random_text(r, FR, 3);
  int lc = r.chance(30) ? 0 : r.chance(40) ? 72 : r.range(6, 20);
  if (r.chance(3))
    lc = -1;
  c.s.push_back(s);
  c.i = {r.range(-1, 5), r.chance(60) ? 0 : (r.chance(50) ? 39 : 34), lc};
  return c;
}
Case rnd_edit(Rng &r) {
  for (int tries = 0; tries < 50; ++tries) {
    File_Line l;
    try {
      if (r.chance(65)) {
        std::string s = random_text(r, FR, 6);
        if (r.chance(40))
          s = random_text(r, {" ", "  ", "10", "&", "  &", "\t", "123"}, 3) +
              r.pick(std::vector<std::string>{"x = 1", "call f(a)", "'ab",
                                              ""}) +
              random_text(r, {" ", "   ", "&", "! c", "!", "& ! c", "'"}, 4);
        Case c;
        c.s = {s};
        c.i = {r.range(1, 9), r.chance(80) ? 0 : 39, r.below(2), 0};
        Got g = run_free(c);
        if (g.threw)
          continue;
        l = g.l;
      } else {
        Got g = run_fixed(rnd_fixed(r));
        if (g.threw)
          continue;
        l = g.l;
      }
      // histories: a few other members first
      for (int k = r.below(3); k > 0 && l.is_fortran(); --k)
        switch (r.below(4)) {
        case 0:
          l.set_leading_spaces(r.below(12));
          break;
        case 1:
          l.make_uncontinued();
          break;
        case 2:
          if (!l.is_continuation() && (l.left_txt.empty() || l.has_label()))
            l.set_label(r.chance(30) ? 0 : r.range(1, 99999));
          break;
        default:
          if (!l.is_fixed_format())
            l.make_continued();
        }
    } catch (std::exception const &) {
      continue;
    }
    int arg = r.chance(60) ? r.range(0, 20)
                           : r.pick(std::vector<int>{0, 6, 7, 9, 10, 99, 100,
                                                     999, 1000, 9999, 10000,
                                                     99999});
    return flat(l, arg);
  }
  return flat(File_Line(), 0);
}
void enum_edit(std::function<void(Case const &)> const &f) {
  for (char const *pre : {"", " ", "   ", "10 ", "10   ", "  &", "&", "&  "})
    for (char const *body : {"x", "x = 1", "'a", ""})
      for (char const *post : {"", " ", "   ", "&", " & ! c", "! c", "   ! c",
                               " &", "     &   ! c", "  &  "})
        for (int fixed : {0, 1})
          for (int d : {0, 39}) {
            Case c;
            c.s = {(fixed && *pre == '&' ? std::string("     ") : "") + pre +
                   (fixed && *pre != '&' ? "      " : "") + body + post};
            Got g;
            if (fixed) {
              c.i = {3, d, 0};
              g = run_fixed(c);
            } else {
              c.i = {3, d, 0, 0};
              g = run_free(c);
            }
            if (!g.threw)
              for (long n : {0, 1, 2, 3, 4, 7, 12, 100, 99999})
                f(flat(g.l, n));
          }
  for (char const *s : {"!", "! c", "  ! c", "!       c", "!    c", "C x ! y",
                        "* !", "c", "!      ", "     !", "#if", ""})
    for (int fixed : {0, 1})
      for (long n : {0, 1, 2, 3, 4, 7, 12}) {
        Case c;
        c.s = {s};
        c.i = {3, 0, 0, 0};
        Got g = fixed ? run_fixed(c) : run_free(c);
        if (!g.threw)
          f(flat(g.l, n));
      }
}
void enum_free(std::function<void(Case const &)> const &f) {
  strings(" a1!&'\"", 4, [&](std::string const &s) {
    for (long d : {0, 39, 34})
      for (long p : {0, 1}) {
        Case c;
        c.s = {s};
        c.i = {1, d, p, 0};
        f(c);
      }
  });
  for (char const *s : {"!#flpr    literal", " !#flpr    litera", "x", "",
                        "!#flpr     literal", "!#FLPR    literal"})
    for (long l : {0, 1}) {
      Case c;
      c.s = {s};
      c.i = {1, 0, 0, l};
      f(c);
    }
}
void enum_fixed(std::function<void(Case const &)> const &f) {
  for (char const *pre : {"", "    ", "     ", "      "})
    strings(" a01!'", 4, [&](std::string const &s) {
      for (long d : {0, 39})
        for (long lc : {0, 7, 8}) {
          Case c;
          c.s = {pre + s};
          c.i = {1, d, lc};
          f(c);
        }
    });
  strings("\t 1!a", 5, [&](std::string const &s) {
    for (long lc : {0, 8, 13}) {
      Case c;
      c.s = {s};
      c.i = {1, 0, lc};
      f(c);
    }
  });
}
} // namespace

int main(int argc, char **argv) {
  std::string const free_rule =
      "all strings of length <= 4 over {space a 1 ! & ' \"} x context x "
      "continuation, then random concatenations of up to 8 source fragments";
  std::string const fixed_rule =
      "all strings of length <= 4 over {space a 0 1 ! '} after 0, 4, 5 or 6 "
      "blanks and tab strings of length <= 5, x context x last column, then "
      "random concatenations of source fragments";
  props()["C01"] = {c01, enum_free, rnd_free, free_rule};
  props()["C02"] = {c02, enum_free, rnd_free, free_rule};
  props()["C03"] = {c03, enum_free, rnd_free, free_rule};
  props()["C04"] = {c04, enum_fixed, rnd_fixed, fixed_rule};
  props()["C05"] = {c05, enum_fixed, rnd_fixed, fixed_rule};
  std::string const edit_rule =
      "field records of 5 texts and 10 flags: every combination of 8 prefixes, "
      "4 bodies and 10 tails in both forms, then lines analysed from random "
      "text after up to 2 other edits, with arguments 0..20 and digit "
      "boundaries; well-formed records only";
  props()["C06"] = {c06, enum_edit, rnd_edit, edit_rule};
  props()["C07"] = {c07, enum_edit, rnd_edit, edit_rule};
  props()["C08"] = {c08, enum_edit, rnd_edit, edit_rule};
  return run(argc, argv);
}
