// Executable statements of C19 (statement parsers), C20 (keywords written
// without their blank), C21 (tag registry) and C27 (tokens of a text).
#include "common.hh"
#include <algorithm>
#include "flpr/LL_Stmt_Src.hh"
#include "flpr/Logical_File.hh"
#include "flpr/Stmt_Parser_Exts.hh"
#include "flpr/Syntax_Tags.hh"
#include "flpr/TT_Stream.hh"
#include "stmt_samples.hh"

using namespace FLPR;
using namespace hz;
using Stmt::Stmt_Tree;

namespace {
struct Quiet {
  std::streambuf *old;
  std::ostringstream o;
  Quiet() : old(std::cerr.rdbuf(o.rdbuf())) {}
  ~Quiet() { std::cerr.rdbuf(old); }
};
using Words = std::vector<std::string>;

bool read(Logical_File &f, Words const &w) {
  if (!f.scan(w, "t", 0, File_Type::FREEFMT))
    return false;
  f.make_stmts();
  return f.ll_stmts.size() == 1 && f.lines.size() == 1;
}

// ---- C19 -----------------------------------------------------------------
using It = TT_Range::iterator;
// the leaves below n, in order, are the tokens from at on
void leaves(Stmt_Tree::node &n, It &at, LL_SEQ::iterator line,
            std::string &shape) {
  shape += std::to_string(n->syntag) + ":" +
           std::to_string(n->token_range.size());
  if (n.is_leaf()) {
    auto &r = n->token_range;
    if (r.empty())
      return;
    ok("a leaf starts where the one before it ended", r.begin() == at);
    at = r.end();
    ok("line of a leaf", r.it() == line);
    if (r.size() == 1) {
      int const t = r.front().token, tag = n->syntag;
      if (tag != Syntax_Tags::TK_NAME && tag < Syntax_Tags::PG_000_LB &&
          tag > Syntax_Tags::HOIST)
        eq("tag of a leaf", tag, t);
      if (tag == Syntax_Tags::TK_NAME)
        ok("a name is a name or a keyword", Syntax_Tags::is_name(t));
    }
    return;
  }
  It b = at;
  shape += "<";
  for (auto &c : n.branches()) {
    ok("parent of a branch", &*c.trunk() == &n);
    leaves(c, at, line, shape);
  }
  shape += ">";
  if (n->token_range.empty())
    ok("a node without tokens covers branches without tokens", at == b);
  else {
    ok("a node starts with its first token", n->token_range.begin() == b);
    ok("a node ends with its last token", n->token_range.end() == at);
    eq("number of tokens of a node", (long)n->token_range.size(),
       (long)std::distance(b, at));
  }
}

// the outcome of rule k from token n on: "" or the shape of its tree
std::string outcome(LL_Stmt &s, int k, int n, bool dispatch, long &taken) {
  TT_Stream ts(s);
  ts.consume(n);
  It const at = ts.mark();
  Stmt_Tree t;
  if (dispatch)
    t = Stmt::parse_stmt_dispatch(sp::rules[k].tag, ts);
  else
    t = std::move(Stmt::rule(sp::rules[k].f)(ts).parse_tree);
  if (t.empty()) {
    ok("a rule that does not match takes nothing", ts.mark() == at);
    taken = -1;
    return "";
  }
  t.check();
  std::string shape;
  It e = at;
  leaves(*t.root(), e, s.it(), shape);
  ok("a rule that matches takes the tokens of its tree", e == ts.mark());
  if (sp::rules[k].tag >= 0)
    eq("root of the tree", Syntax_Tags::label((*t)->syntag),
       Syntax_Tags::label(sp::rules[k].tag));
  taken = ts.num_consumed() - n;
  if ((*t)->syntag == Syntax_Tags::SG_ACTION_STMT) {
    int tag = (*t->branches().begin())->syntag;
    ok("an action statement is known as one", Stmt::is_action_stmt(tag));
  }
  return shape;
}
bool inner(int tag) { // not the first token of a literal
  return tag == Syntax_Tags::SG_EXPONENT_LETTER ||
         tag == Syntax_Tags::SG_EXPONENT || tag == Syntax_Tags::TK_UNDERSCORE ||
         tag == Syntax_Tags::SG_KIND_PARAM;
}
int rule_of(std::string const &n) {
  for (int k = 0; k < sp::n_rules; ++k)
    if (n == sp::rules[k].name)
      return k;
  return 0;
}
// s: statement text; i: rule, first token, sample
void c19(Case const &c) {
  Quiet q;
  if (c.s.size() != 1 || c.i.size() < 3)
    throw Skip();
  int const k = (int)(std::abs(c.i[0]) % sp::n_rules);
  size_t const first = c.s[0].find_first_not_of(" \t");
  if (first == std::string::npos || std::isdigit((unsigned char)c.s[0][first]))
    throw Skip(); // a label
  Logical_File f;
  if (!read(f, {c.s[0]}))
    throw Skip();
  LL_Stmt &s = f.ll_stmts.front();
  int const n = (int)(std::abs(c.i[1]) % (long)s.size());
  long taken, again;
  std::string const shape = outcome(s, k, n, false, taken);
  long const w = c.i[2] - 1; // (a sample statement)
  if (w >= 0 && w < sp::n_samples && sp::samples[w].whole && n == 0 &&
      c.s[0] == sp::samples[w].text &&
      std::string(sp::rules[k].name) == sp::samples[w].rule) {
    eq("a statement of its kind is recognised", taken, (long)s.size() - n);
  }
  eq("parsing again", outcome(s, k, n, false, again), shape);
  if (sp::rules[k].dispatched)
    eq("by its tag", outcome(s, k, n, true, again), shape);
  // other names, other blanks, other case: the same tree
  std::string v;
  for (auto const &t : s) {
    std::string x = t.text();
    if (t.token == Syntax_Tags::TK_NAME) {
      if (x.size() > 1)
        x = "q_" + x;
      else if (x != "c" && x != "C")
        x = x == "z" ? "y" : "z";
    }
    if (t.token == Syntax_Tags::UNKNOWN)
      throw Skip();
    if (x.find_first_of("'\"") == std::string::npos)
      for (auto &y : x)
        y = (char)(v.size() % 3 ? std::toupper(y) : std::tolower(y));
    if (!v.empty() && !inner(t.token))
      v += v.size() % 2 ? " " : v.size() % 4 ? "  " : " &\n ";
    v += x;
  }
  Words lines;
  std::istringstream is(v);
  for (std::string l; std::getline(is, l);)
    lines.push_back(l);
  Logical_File g;
  ok(("same statement: " + v).c_str(), read(g, lines));
  LL_Stmt &s2 = g.ll_stmts.front();
  eq(("number of tokens of " + v).c_str(), (long)s2.size(), (long)s.size());
  eq(("tree of " + v).c_str(), outcome(s2, k, n, false, again), shape);
  eq(("tokens taken of " + v).c_str(), again, taken);
}
void en19(std::function<void(Case const &)> const &f) {
  for (int k = 0; k < sp::n_samples; ++k) {
    Case c;
    c.s = {sp::samples[k].text};
    c.i = {rule_of(sp::samples[k].rule), 0, k + 1};
    f(c);
    // other rules on it
    for (int j = 0; j < sp::n_rules; ++j) {
      c.i[0] = j;
      f(c);
    }
  }
}
Case rnd19(Rng &r) {
  Case c;
  auto const &a = sp::samples[r.below(sp::n_samples)];
  auto const &b = sp::samples[r.below(sp::n_samples)];
  // tokens, roughly
  auto cut = [](std::string const &t) {
    Words w;
    for (size_t k = 0; k < t.size();) {
      size_t e = k + 1;
      if (std::isalnum((unsigned char)t[k]) || t[k] == '_' || t[k] == '.')
        while (e < t.size() && (std::isalnum((unsigned char)t[e]) ||
                                t[e] == '_' || t[e] == '.'))
          ++e;
      else if (t[k] == '\'' || t[k] == '"') {
        e = t.find(t[k], k + 1);
        e = e == std::string::npos ? t.size() : e + 1;
      }
      w.push_back(t.substr(k, e - k));
      k = e;
    }
    return w;
  };
  Words x = cut(a.text), y = cut(b.text);
  int n = r.range(1, 3);
  while (n--) {
    if (x.empty())
      x = {"a"};
    size_t p = r.below((int)x.size());
    switch (r.below(6)) {
    case 0:
      x.erase(x.begin() + p);
      break;
    case 1:
      x[p] = r.pick(y);
      break;
    case 2:
      x.insert(x.begin() + p, r.pick(y));
      break;
    case 3:
      x.insert(x.begin() + p, r.pick(x));
      break;
    case 4: {
      size_t e = y.size(), b0 = r.below((int)e);
      x.insert(x.begin() + p, y.begin() + b0, y.end());
      break;
    }
    default:
      x.resize(p);
    }
  }
  std::string s;
  for (auto const &w : x)
    s += w;
  c.s = {s};
  c.i = {r.chance(50) ? rule_of(a.rule) : r.below(sp::n_rules),
         r.chance(70) ? 0 : r.below(6), 0};
  return c;
}

// ---- C20 -----------------------------------------------------------------
// Fortran 2018, table 6.2 (without those that are a token of their own)
struct Pair {
  char const *a, *b;
};
Pair const PAIRS[] = {
    {"block", "data"},    {"else", "if"},       {"else", "where"},
    {"end", "associate"}, {"end", "block"},     {"end", "critical"},
    {"end", "do"},        {"end", "enum"},      {"end", "file"},
    {"end", "forall"},    {"end", "function"},  {"end", "if"},
    {"end", "interface"}, {"end", "module"},    {"end", "procedure"},
    {"end", "program"},   {"end", "select"},    {"end", "submodule"},
    {"end", "subroutine"}, {"end", "team"},     {"end", "type"},
    {"end", "where"},     {"go", "to"},         {"select", "case"},
    {"select", "type"}};
int const NP = sizeof(PAIRS) / sizeof(PAIRS[0]);
struct Tok {
  std::string text;
  int tag, col, pre, post;
  std::string lower;
};
std::vector<Tok> toks(std::string const &t) {
  Logical_Line l(t);
  std::vector<Tok> r;
  for (auto const &x : l.fragments())
    r.push_back({x.text(), x.token, x.start_pos, x.pre_spaces(),
                 x.post_spaces(), x.lower()});
  return r;
}
// s: a word of letters, digits and underscores, in a line by itself between
// other tokens
void c20(Case const &c) {
  Quiet q;
  if (c.s.size() != 1 || c.s[0].empty() || c.s[0].size() > 60)
    throw Skip();
  std::string const &w = c.s[0];
  for (size_t k = 0; k < w.size(); ++k)
    if (!(std::isalpha((unsigned char)w[k]) ||
          (k && (std::isdigit((unsigned char)w[k]) || w[k] == '_'))))
      throw Skip();
  std::string low;
  for (char x : w)
    low += (char)std::tolower(x);
  size_t cut = 0;
  for (auto const &p : PAIRS)
    if (low == std::string(p.a) + p.b)
      cut = std::strlen(p.a);
  auto got = toks("+ " + w + " -");
  std::vector<Tok> want = toks("+ " + w.substr(0, cut ? cut : w.size()) +
                               (cut ? " " + w.substr(cut) : "") + " -");
  eq("number of tokens", (long)got.size(), cut ? 4L : 3L);
  std::string all;
  for (size_t k = 0; k < got.size(); ++k) {
    eq("token", got[k].text, want[k].text);
    eq("tag of a token", Syntax_Tags::label(got[k].tag),
       Syntax_Tags::label(want[k].tag));
    eq("token in lower case", got[k].lower, want[k].lower);
    int shift = cut && k > 1 ? 1 : 0;
    eq("column of a token", got[k].col, want[k].col - shift);
    eq("blanks before a token", got[k].pre,
       cut && k == 2 ? 0 : want[k].pre);
    eq("blanks after a token", got[k].post,
       cut && k == 1 ? 0 : want[k].post);
    if (k && k + 1 < got.size())
      all += got[k].text;
  }
  eq("the word", all, w);
  if (cut) {
    ok("both halves are keywords", Syntax_Tags::is_keyword(got[1].tag) &&
                                       Syntax_Tags::is_keyword(got[2].tag));
  }
}
std::string cased(std::string s, unsigned bits) {
  for (size_t k = 0; k < s.size(); ++k)
    if (bits >> (k % 8) & 1)
      s[k] = (char)std::toupper(s[k]);
  return s;
}
Words const HALVES = {"block", "data", "else", "if", "where", "end",
                      "associate", "critical", "do", "enum", "file", "forall",
                      "function", "interface", "module", "procedure",
                      "program", "select", "submodule", "subroutine", "team",
                      "type", "go", "to", "case", "rank", "in", "out", "x",
                      "variable", "double", "precision", "while", "change"};
void en20(std::function<void(Case const &)> const &f) {
  Case c;
  for (auto const &a : HALVES) {
    for (auto const &b : HALVES)
      for (unsigned m : {0u, 255u, 1u, 170u}) {
        c.s = {cased(a + b, m)};
        f(c);
      }
  }
  for (auto const &p : PAIRS) { // one letter away
    std::string w = std::string(p.a) + p.b;
    for (size_t k = 0; k <= w.size(); ++k)
      for (char x : std::string("abcdefghijklmnopqrstuvwxyz_1")) {
        std::string v = w;
        v.insert(k, 1, x);
        c.s = {v};
        f(c);
        if (k < w.size()) {
          v = w;
          v[k] = x;
          c.s = {v};
          f(c);
          v = w;
          v.erase(k, 1);
          c.s = {v};
          f(c);
        }
      }
  }
}
Case rnd20(Rng &r) {
  Case c;
  std::string w;
  int n = r.range(1, 14);
  while (n--)
    w += "abcdefghijklmnopqrstuvwxyz_1"[r.below(28)];
  c.s = {r.chance(50) ? w : r.pick(HALVES) + w.substr(0, 1 + r.below(4))};
  return c;
}

// ---- C21 -----------------------------------------------------------------
// i: (offset, type) of extensions to register, then queries
void c21(Case const &c) {
  Quiet q;
  static std::map<int, std::pair<std::string, int>> known; // (process-wide)
  for (size_t k = 0; k + 1 < c.i.size(); k += 2) {
    long const off = std::abs(c.i[k]) % 2000;
    int const tag = Syntax_Tags::CLIENT_EXTENSION + (int)off;
    int const type = (int)(std::abs(c.i[k + 1]) % 6);
    if (!known.count(tag)) {
      std::string label = "ext-" + std::to_string(off);
      ok("registered", Syntax_Tags::register_ext(tag, label.c_str(), type));
      known[tag] = {label, type};
    }
    for (int d = -2; d <= 2; ++d) {
      int const t = tag + d;
      if (t < Syntax_Tags::CLIENT_EXTENSION)
        continue;
      auto it = known.find(t);
      bool const have = it != known.end();
      eq("label", Syntax_Tags::label(t),
         have ? it->second.first
              : "<client-extension+" +
                    std::to_string(t - Syntax_Tags::CLIENT_EXTENSION) + ">");
      eq("type", Syntax_Tags::type(t), have ? it->second.second : 4);
      eq("keyword", Syntax_Tags::is_keyword(t), Syntax_Tags::type(t) == 4);
      eq("name", Syntax_Tags::is_name(t), Syntax_Tags::type(t) == 4);
      std::ostringstream o;
      Syntax_Tags::print(o, t);
      eq("printed", o.str(), Syntax_Tags::label(t));
    }
  }
  // the tags of the library keep theirs
  struct D {
    int tag;
    char const *label;
    int type;
  };
#define X(N, S, T) {Syntax_Tags::N, S, T},
#define MAP_(M) M
  static D const defs[] = {
      {Syntax_Tags::EOL, "<EOL>", 0},
      {Syntax_Tags::UNKNOWN, "<UNKNOWN>", 0},
      {Syntax_Tags::BAD, "<BAD>", 0},
      {Syntax_Tags::HOIST, "<HOIST>", 0},
      {Syntax_Tags::TK_NAME, "name", 3},
      {Syntax_Tags::TK_PLUS, "+", 3},
      {Syntax_Tags::KW_IF, "IF", 4},
      {Syntax_Tags::KW_WRITE, "WRITE", 4},
      {Syntax_Tags::KW_ABSTRACT, "ABSTRACT", 4},
      {Syntax_Tags::SG_ASSIGNMENT_STMT, "assignment-stmt", 5},
      {Syntax_Tags::SG_EXPR, "expr", 2},
  };
  for (auto const &d : defs) {
    eq("label of a tag", Syntax_Tags::label(d.tag), std::string(d.label));
    eq("type of a tag", Syntax_Tags::type(d.tag), d.type);
  }
  for (int t = 0; t < Syntax_Tags::CLIENT_EXTENSION; ++t) {
    eq("keyword", Syntax_Tags::is_keyword(t), Syntax_Tags::type(t) == 4);
    eq("name", Syntax_Tags::is_name(t),
       t == Syntax_Tags::TK_NAME || Syntax_Tags::type(t) == 4);
    if (t > Syntax_Tags::KW_000_LB && Syntax_Tags::type(t) == 4)
      ok("label of a keyword", !Syntax_Tags::label(t).empty());
  }
}
void en21(std::function<void(Case const &)> const &f) {
  for (long a = 0; a < 6; ++a)
    for (long b = 0; b < 6; ++b) {
      Case c;
      c.i = {a * 7, b};
      f(c);
    }
}
Case rnd21(Rng &r) {
  Case c;
  int n = r.range(1, 4);
  while (n--)
    c.i.insert(c.i.end(), {r.below(2000), r.below(6)});
  return c;
}

// ---- C27 -----------------------------------------------------------------
bool al(char c) { return std::isalpha((unsigned char)c); }
bool dg(char c) { return std::isdigit((unsigned char)c); }
bool nm(char c) { return al(c) || dg(c) || c == '_'; }
std::map<std::string, int> const &ops() {
  using T = Syntax_Tags;
  static std::map<std::string, int> const m{
      {"(", T::TK_PARENL},    {")", T::TK_PARENR},   {"[", T::TK_BRACKETL},
      {"]", T::TK_BRACKETR},  {"+", T::TK_PLUS},     {"-", T::TK_MINUS},
      {"=", T::TK_EQUAL},     {"..", T::TK_DBL_DOT}, {"::", T::TK_DBL_COLON},
      {":", T::TK_COLON},     {"/", T::TK_SLASHF},   {"%", T::TK_PERCENT},
      {",", T::TK_COMMA},     {"**", T::TK_POWER_OP}, {"*", T::TK_ASTERISK},
      {"|", T::TK_VBAR},      {"//", T::TK_CONCAT},  {"=>", T::TK_ARROW},
      {"==", T::TK_REL_EQ},   {"/=", T::TK_REL_NE},  {"<", T::TK_REL_LT},
      {"<=", T::TK_REL_LE},   {">", T::TK_REL_GT},   {">=", T::TK_REL_GE},
      {".eq.", T::TK_REL_EQ}, {".ne.", T::TK_REL_NE}, {".lt.", T::TK_REL_LT},
      {".le.", T::TK_REL_LE}, {".gt.", T::TK_REL_GT}, {".ge.", T::TK_REL_GE},
      {".not.", T::TK_NOT_OP}, {".and.", T::TK_AND_OP}, {".or.", T::TK_OR_OP},
      {".eqv.", T::TK_EQV_OP}, {".neqv.", T::TK_NEQV_OP},
      {".true.", T::TK_TRUE_CONSTANT}, {".false.", T::TK_FALSE_CONSTANT}};
  return m;
}
struct Lex {
  std::string text;
  int tag; // -1: a keyword or a name (its text tells which)
};
// where a quoted text that starts at p ends (or npos)
size_t quoted(std::string const &t, size_t p) {
  char const d = t[p];
  for (size_t k = p + 1; k < t.size(); ++k)
    if (t[k] == d) {
      if (k + 1 < t.size() && t[k + 1] == d)
        ++k;
      else
        return k + 1;
    }
  return std::string::npos;
}
std::vector<Lex> lex(std::string const &t) {
  using T = Syntax_Tags;
  std::vector<Lex> r;
  auto put = [&r](std::string x, int tag) { r.push_back({x, tag}); };
  for (size_t p = 0; p < t.size();) {
    char const c = t[p];
    if (c == ' ' || c == '\t') {
      ++p;
      continue;
    }
    size_t e = p;
    auto kind = [&](size_t k) { // end of "_kind" at k
      if (k < t.size() && t[k] == '_' && k + 1 < t.size() &&
          (al(t[k + 1]) || dg(t[k + 1]))) {
        size_t m = k + 1;
        if (dg(t[m]))
          while (m < t.size() && dg(t[m]))
            ++m;
        else
          while (m < t.size() && nm(t[m]))
            ++m;
        return m;
      }
      return k;
    };
    if (c == '\'' || c == '"') {
      e = quoted(t, p);
      if (e == std::string::npos)
        throw Skip();
      put(t.substr(p, e - p), T::SG_CHAR_LITERAL_CONSTANT);
    } else if (al(c)) {
      while (e < t.size() && nm(t[e]))
        ++e;
      if (t[e - 1] == '_' && e < t.size() && (t[e] == '\'' || t[e] == '"')) {
        e = quoted(t, e);
        if (e == std::string::npos)
          throw Skip();
        put(t.substr(p, e - p), T::SG_CHAR_LITERAL_CONSTANT);
      } else
        put(t.substr(p, e - p), -1);
    } else if (dg(c) || (c == '.' && p + 1 < t.size() && dg(t[p + 1]))) {
      while (e < t.size() && dg(t[e]))
        ++e;
      bool real = false;
      if (e < t.size() && t[e] == '.') {
        size_t w = e + 1;
        while (w < t.size() && al(t[w]))
          ++w;
        if (!(w > e + 1 && w < t.size() && t[w] == '.')) { // not "1.eq."
          real = true;
          ++e;
          while (e < t.size() && dg(t[e]))
            ++e;
        }
      }
      size_t x = e;
      if (x < t.size() && std::strchr("eEdD", t[x])) {
        size_t y = x + 1;
        if (y < t.size() && (t[y] == '+' || t[y] == '-'))
          ++y;
        size_t z = y;
        while (z < t.size() && dg(t[z]))
          ++z;
        if (z > y) {
          put(t.substr(p, e - p), T::SG_SIGNIFICAND);
          put(t.substr(x, 1), T::SG_EXPONENT_LETTER);
          put(t.substr(x + 1, z - x - 1), T::SG_EXPONENT);
          real = true;
          e = z;
        } else if (real)
          put(t.substr(p, e - p), T::SG_SIGNIFICAND);
      } else if (real)
        put(t.substr(p, e - p), T::SG_SIGNIFICAND);
      size_t k = kind(e);
      if (real) {
        if (k > e) {
          put("_", T::TK_UNDERSCORE);
          put(t.substr(e + 1, k - e - 1), T::SG_KIND_PARAM);
          e = k;
        }
      } else if (e < t.size() && t[e] == '_' && e + 1 < t.size() &&
                 (t[e + 1] == '\'' || t[e + 1] == '"')) {
        size_t z = quoted(t, e + 1);
        if (z == std::string::npos)
          throw Skip();
        put(t.substr(p, z - p), T::SG_CHAR_LITERAL_CONSTANT);
        e = z;
      } else {
        e = k;
        put(t.substr(p, e - p), T::SG_INT_LITERAL_CONSTANT);
      }
      if (real && e < t.size() && nm(t[e]))
        throw Skip(); // nothing separates the number from what follows
    } else if (c == '.' && p + 1 < t.size() && al(t[p + 1])) {
      e = p + 1;
      while (e < t.size() && al(t[e]))
        ++e;
      if (e == t.size() || t[e] != '.')
        throw Skip();
      ++e;
      std::string low;
      for (size_t k = p; k < e; ++k)
        low += (char)std::tolower(t[k]);
      auto it = ops().find(low);
      if (low == ".true." || low == ".false.")
        e = kind(e);
      put(t.substr(p, e - p), it == ops().end() ? (int)T::TK_DEF_OP
                                                : it->second);
    } else {
      for (size_t n = 2; n >= 1; --n) {
        auto it = ops().find(t.substr(p, n));
        if (p + n <= t.size() && it != ops().end()) {
          e = p + n;
          put(t.substr(p, n), it->second);
          break;
        }
      }
      if (e == p)
        throw Skip(); // no token of Fortran
    }
    p = e;
  }
  return r;
}
Words const KEYS = {
#include "keywords.inc"
};
void line27(std::string const &t) {
  if (t.empty() || t[0] == ' ' || dg(t[0]) || t.find('!') < t.size() ||
      t.find('&') < t.size() || t.find(';') < t.size() || t[0] == '#')
    throw Skip();
  for (unsigned char x : t)
    if (x < 32 || x > 126)
      throw Skip();
  auto want = lex(t);
  if (want.empty())
    throw Skip();
  for (auto const &w : want) { // see C20
    std::string low;
    for (char x : w.text)
      low += (char)std::tolower(x);
    for (auto const &p : PAIRS)
      if (low == std::string(p.a) + p.b)
        throw Skip();
  }
  auto got = toks(t);
  std::string a, b;
  for (auto const &x : got)
    a += "[" + x.text + "]";
  for (auto const &x : want)
    b += "[" + x.text + "]";
  eq("tokens", a, b);
  size_t at = 0;
  for (size_t k = 0; k < want.size(); ++k) {
    int tag = want[k].tag;
    std::string what = "tag of " + want[k].text;
    if (tag >= 0)
      eq(what.c_str(), Syntax_Tags::label(got[k].tag), Syntax_Tags::label(tag));
    else {
      std::string up;
      for (char x : want[k].text)
        up += (char)std::toupper(x);
      bool key = std::find(KEYS.begin(), KEYS.end(), up) != KEYS.end();
      eq(what.c_str(), Syntax_Tags::label(got[k].tag),
         key ? up : Syntax_Tags::label(Syntax_Tags::TK_NAME));
    }
    size_t p = t.find(want[k].text, at);
    eq("column of a token", (long)got[k].col, (long)p + 1);
    at = p + want[k].text.size();
  }
}
// s: text of the lines, read one after the other
void c27(Case const &c) {
  Quiet q;
  if (c.s.empty() || c.s.size() > 4)
    throw Skip();
  toks("x"); // nothing is left of the case before
  toks("x");
  for (auto const &t : c.s)
    line27(t);
}
Words const PIECES = {
    "a", "x1", "if", "END", "Real", "kind", "1", "12", "1.", ".5", "1.5",
    "2e3", "2.e-3", "3.d0", "4_k", "5._8", "6e1_dp", ".true.", ".FALSE._k", ".true._8", ".false._4",
    ".eq.", ".And.", ".not.", ".my.", ".or.", "'a'", "\"b c\"", "k_'x'",
    "'it''s'", "1_\"q\"", "(", ")", "[", "]", "+", "-", "*", "**", "/", "//",
    "/=", "=", "==", "=>", "<", "<=", ">", ">=", ":", "::", "%", ",", " ",
    "  ", "_", "d", "e", "..", "(/", "/)"};
void en27(std::function<void(Case const &)> const &f) {
  Case c;
  for (auto const &k : KEYS) {
    c.s = {k};
    f(c);
    c.s = {k + "x=1"};
    f(c);
    c.s = {"x_" + k + "(" + k + ")"};
    f(c);
  }
  for (auto const &a : PIECES)
    for (auto const &b : PIECES)
      for (auto const &d : PIECES) {
        c.s = {"x " + a + b + d};
        f(c);
      }
  for (auto const &a : PIECES)
    for (auto const &b : PIECES)
      if (al(b[0])) {
        c.s = {"x " + a, b + "3 = " + a, b + "2"};
        f(c);
      }
}
Case rnd27(Rng &r) {
  Case c;
  int lines = r.range(1, 3);
  while (lines--) {
    std::string w = r.pick(Words{"x", "e", "d2", "e3"});
    int n = r.range(1, 9);
    while (n--) {
      if (r.chance(25))
        w += " ";
      w += r.chance(6) ? r.pick(KEYS) : r.pick(PIECES);
    }
    c.s.push_back(w);
  }
  return c;
}
} // namespace

int main(int argc, char **argv) {
  props()["C19"] = {c19, en19, rnd19,
                    "every one of the sample statements with every rule, "
                    "then statements with parts deleted, doubled or exchanged"};
  props()["C20"] = {c20, en20, rnd20,
                    "every pair of 34 words and every word one letter away "
                    "from one of the table, then random words"};
  props()["C21"] = {c21, en21, rnd21,
                    "histories of registrations among 2000 extensions"};
  props()["C27"] = {c27, en27, rnd27,
                    "every keyword, every row of 3 of 59 pieces of text, then "
                    "random rows"};
  return run(argc, argv);
}
