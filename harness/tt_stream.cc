// Executable statement of C18: a cursor over the tokens of a statement.
#include "common.hh"
#include "flpr/Logical_Line.hh"
#include "flpr/TT_Stream.hh"

using namespace FLPR;
using namespace hz;

namespace {
// case: s[0] the tokens of a list ( ( ) [ ] ; n=name k=keyword x=other ),
// i: begin, end of the range, then operations op[,arg]
int tag(char c) {
  switch (c) {
  case '(': return Syntax_Tags::TK_PARENL;
  case ')': return Syntax_Tags::TK_PARENR;
  case '[': return Syntax_Tags::TK_BRACKETL;
  case ']': return Syntax_Tags::TK_BRACKETR;
  case ';': return Syntax_Tags::TK_SEMICOLON;
  case 'n': return Syntax_Tags::TK_NAME;
  case 'k': return Syntax_Tags::KW_ABSTRACT;
  default: return Syntax_Tags::TK_PLUS;
  }
}
enum { CONSUME, PUT_BACK, REWIND, EOL, TO_CLOSE, BEFORE_CLOSE, TO_OPEN,
       BRACKET, UNKEY, DIGEST, UNTIL_EOL, EXPECT, EXPECT_ID, CAPTURE, PEEK,
       NOPS };

void c18(Case const &c) {
  if (c.s.size() != 1 || c.i.size() < 2)
    throw Skip();
  std::string t = c.s[0];
  int b = (int)c.i[0], e = (int)c.i[1], n = (int)t.size();
  if (b < 0 || e < b || e > n)
    throw Skip();
  LL_SEQ lines;
  lines.emplace_back();
  TT_SEQ toks;
  for (int k = 0; k < n; ++k)
    toks.push_back(Token_Text("T" + std::to_string(k), tag(t[k]), 1, k));
  auto at = [&](int k) { return std::next(toks.begin(), k); };
  LL_TT_Range rng(lines.begin(), at(b), at(e));
  TT_Stream ts(rng);
  int p = b;
  auto txt = [](int k) { return "T" + std::to_string(k); };
  auto kind = [&](int k) { return k >= b && k < e ? tag(t[k])
                                                  : (int)Syntax_Tags::BAD; };
  auto match = [&](int from, char o, char cl) { // the close of from, or -1
    int d = 0;
    for (int k = from; k < e; ++k) {
      d += t[k] == o ? 1 : t[k] == cl ? -1 : 0;
      if (d == 0)
        return k;
    }
    return -1;
  };
  auto state = [&]() {
    eq("tokens consumed", ts.num_consumed(), p - b);
    eq("current token", ts.curr(), p > b ? kind(p - 1) : Syntax_Tags::BAD);
    eq("current text", ts.curr_tt().text(),
       p > b ? txt(p - 1) : std::string());
    eq("next token", ts.peek(), kind(p));
    for (int o = 1; o <= e - p + 2; ++o) {
      eq("token ahead", ts.peek(o), kind(p + o - 1));
      eq("text ahead", ts.peek_tt(o).text(),
         p + o - 1 < e ? txt(p + o - 1) : std::string());
    }
    eq("last token", ts.peek_back(), e > b ? kind(e - 1) : Syntax_Tags::BAD);
    ok("mark", ts.mark() == at(p) && ts.next_iterator() == at(p));
    int k = 0;
    for (auto const &x : toks)
      eq("kind of a token", x.token, tag(t[k++]));
  };
  state();
  for (size_t k = 2; k < c.i.size(); ++k) {
    int op = (int)(c.i[k] % NOPS), arg = (int)(c.i[k] / NOPS);
    switch (op) {
    case CONSUME:
      if (p + arg > e)
        throw Skip();
      ts.consume(arg);
      p += arg;
      break;
    case PUT_BACK:
      ts.put_back();
      p = std::max(b, p - 1);
      break;
    case REWIND:
      if (arg > e - b || arg == 0) {
        ts.rewind();
        p = b;
      } else {
        ts.rewind(at(b + arg));
        p = b + arg;
      }
      break;
    case EOL: {
      bool semi = p < e && t[p] == ';';
      eq("end of the statement", ts.is_eol(), p == e || semi);
      p += semi;
      break;
    }
    case TO_CLOSE:
    case BEFORE_CLOSE:
    case BRACKET: {
      char o = op == BRACKET ? '[' : '(', cl = op == BRACKET ? ']' : ')';
      if (p >= e || t[p] != o)
        throw Skip();
      int m = match(p, o, cl);
      bool r = op == TO_CLOSE       ? ts.move_to_close_paren()
               : op == BEFORE_CLOSE ? ts.move_before_close_paren()
                                    : ts.ignore_bracket_expr();
      eq("matching close found", r, m >= 0);
      p = m < 0 ? e : op == BEFORE_CLOSE ? m : m + 1;
      break;
    }
    case TO_OPEN: {
      bool r = ts.move_to_open_paren();
      if (p == b || t[p - 1] != ')') {
        eq("no close to start from", r, false);
        break;
      }
      int d = 0, m = -1;
      for (int j = p - 1; j >= b; --j) {
        d += t[j] == ')' ? 1 : t[j] == '(' ? -1 : 0;
        if (d == 0) {
          m = j;
          break;
        }
      }
      eq("matching open found", r, m >= 0);
      p = m < 0 ? b : m + 1;
      break;
    }
    case UNKEY:
      ts.unkeyword(arg - 1);
      for (int j = p; j < e && (arg == 0 || j < p + arg - 1); ++j)
        if (t[j] == 'k')
          t[j] = 'n';
      break;
    case DIGEST: {
      if (p + arg > e)
        throw Skip();
      LL_TT_Range r = ts.digest(arg);
      eq("tokens in the range", (long)r.size(), (long)arg);
      ok("range", r.begin() == at(p) && r.end() == at(p + arg) &&
                      r.it() == lines.begin());
      p += arg;
      break;
    }
    case UNTIL_EOL:
      ts.consume_until_eol();
      p = e;
      break;
    case EXPECT:
      if (p >= e)
        throw Skip();
      ts.expect_tok(tag(t[p]));
      ++p;
      break;
    case EXPECT_ID:
      if (p >= e || t[p] != 'n')
        throw Skip();
      if (arg & 1)
        eq("identifier", ts.expect_id(), txt(p));
      else
        eq("identifier", ts.expect_id_low(), "t" + txt(p).substr(1));
      ++p;
      break;
    case CAPTURE: {
      if (p + arg > e)
        throw Skip();
      auto cap = ts.capture_begin();
      ok("an open capture is empty", cap.empty() && cap.size() == 0);
      ts.consume(arg);
      ts.capture_end(cap);
      eq("captured tokens", cap.size(), arg);
      eq("nothing captured", cap.empty(), arg == 0);
      LL_TT_Range r = ts.capture_to_range(cap);
      ok("captured range", r.begin() == at(p) && r.end() == at(p + arg) &&
                               (int)r.size() == arg);
      std::string s, want;
      ts.capture_text(cap, s);
      for (int j = p; j < p + arg; ++j)
        want += txt(j);
      eq("captured text", s, want);
      p += arg;
      break;
    }
    case PEEK:
      eq("far ahead", ts.peek(arg + 1), kind(p + arg));
      break;
    }
    state();
  }
}

void en(std::function<void(Case const &)> const &f) {
  static char const K[] = "()[];nkx";
  for (int n = 0; n <= 4; ++n) {
    long total = 1;
    for (int k = 0; k < n; ++k)
      total *= 8;
    for (long v = 0; v < total; ++v) {
      Case c;
      c.s.push_back("");
      long x = v;
      for (int k = 0; k < n; ++k, x /= 8)
        c.s[0] += K[x % 8];
      for (int b = 0; b <= n && b <= 1; ++b)
        for (int pre = 0; pre <= n - b; ++pre)
          for (int op : std::vector<int>{EOL, TO_CLOSE, BEFORE_CLOSE, TO_OPEN, BRACKET,
                         UNKEY, UNKEY + 2 * NOPS, EXPECT_ID}) {
            c.i = {b, n - (n > 3 ? 1 : 0), (long)CONSUME + NOPS * pre, op};
            f(c);
          }
    }
  }
}
Case rnd(Rng &r) {
  static std::string const K = "((()))[[]];nnkkx";
  Case c;
  c.s.push_back("");
  int n = r.range(0, 14);
  for (int k = 0; k < n; ++k)
    c.s[0] += r.pick(K);
  int b = r.range(0, std::min(n, 2)), e = n - r.range(0, std::min(n - b, 2));
  c.i = {b, e};
  int ops = r.range(1, 8);
  for (int k = 0; k < ops; ++k)
    c.i.push_back(r.below(NOPS) + (long)NOPS * r.below(r.chance(50) ? 2 : 5));
  return c;
}
} // namespace

int main(int argc, char **argv) {
  props()["C18"] = Prop{c18, en, rnd,
                        "every token list of up to 4 tokens over 8 kinds, one "
                        "operation from every cursor; then random lists of up "
                        "to 14 tokens with up to 8 operations"};
  return hz::run(argc, argv);
}
