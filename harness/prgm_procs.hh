// Procedures and their regions (C16), partitions of a list (C16), indentation
// (C29).
#pragma once
#include "flpr/Procedure.hh"
#include "flpr/Procedure_Visitor.hh"

namespace {

// ------------------------------------------------------ a partitioned list
struct NoTracker {
  int id;
  explicit NoTracker(int i) : id(i) {}
  void update_begin(std::list<int>::iterator, std::list<int>::iterator,
                    std::ptrdiff_t) {}
  void update_end(std::list<int>::iterator, std::list<int>::iterator) {}
  void update_size(std::ptrdiff_t) {}
};
using RP = Range_Partition<SL_Range<int>, NoTracker>;

// i: (op, a, b, c)*
void partition(std::vector<long> const &h, size_t from) {
  constexpr size_t N = 5;
  Safe_List<int> l;
  for (int k = 0; k < 40; ++k)
    l.push_back(k);
  auto next = l.begin();
  RP p(N);
  RP const &cp = p;
  std::vector<std::vector<int>> m(N);
  std::vector<long> trk(N, -1);
  size_t low = 0; // regions before this one take no more
  bool any = false;
  auto values = [](auto b, auto e) {
    std::string s;
    for (int n = 0; b != e; ++b) {
      s += std::to_string(*b) + " ";
      if (++n > 200)
        throw Failure("a region does not end");
    }
    return s;
  };
  auto want = [&](size_t r) {
    std::string s;
    for (int v : m[r])
      s += std::to_string(v) + " ";
    return s;
  };
  for (size_t k = from; k + 3 < h.size(); k += 4) {
    size_t const r = (size_t)h[k + 1] % N;
    long const b = h[k + 2], c = h[k + 3];
    switch (h[k] % 6) {
    case 0: { // append a stretch, maybe an empty one
      if (low >= N)
        break;
      size_t const x = std::max(r, low);
      auto e = next;
      for (long n = 0; n < b % 4 && e != l.end(); ++n)
        m[x].push_back(*e++);
      if (e != next || (any && b % 2)) {
        if (c % 2)
          p.append(x, next, e);
        else
          p.append(x, SL_Range<int>(next, e));
      }
      if (e != next) {
        low = x;
        any = true;
      }
      next = e;
      break;
    }
    case 1: { // insert before one of its elements, or at its end
      if (!any)
        break;
      auto it = p.begin(r);
      size_t const n = m[r].size();
      size_t const at = (size_t)b % (n + 1);
      std::advance(it, at);
      // the end of the last region is where the list goes on
      int const v = 1000 + (int)k;
      auto nw = l.insert(it, v);
      int how = 1;
      if (c % 3 == 0) {
        nw = l.insert(nw, v + 1);
        how = 2;
      }
      p.insert(r, nw, it);
      if (how == 2)
        m[r].insert(m[r].begin() + (long)at, {v + 1, v});
      else
        m[r].insert(m[r].begin() + (long)at, v);
      low = N; // no appending after this
      break;
    }
    case 2: // look at it through the mutable view
      if (any) {
        eq("a region", values(p.begin(r), p.end(r)), want(r));
        low = std::max(low, r); // it has its place now
      }
      break;
    case 3:
      p.set_tracker(r, NoTracker((int)b));
      trk[r] = b;
      break;
    case 4:
      if (c % 5 == 0) {
        p.clear_partitions();
        for (auto &x : m)
          x.clear();
        trk.assign(N, -1);
        low = 0;
        any = false;
      }
      break;
    default:
      break;
    }
    bool none = true;
    std::string all;
    for (size_t q = 0; q < N; ++q) {
      eq("emptiness of a region", cp.empty(q), m[q].empty());
      none = none && m[q].empty();
      all += want(q);
      eq("a region has a tracker", cp.has_tracker(q), trk[q] >= 0);
      if (trk[q] >= 0)
        eq("the tracker of a region", (long)cp.get_tracker(q).id, trk[q]);
      if (any) {
        eq("a region", values(cp.begin(q), cp.end(q)), want(q));
        eq("a region, read-only", values(cp.cbegin(q), cp.cend(q)), want(q));
        ok("a region ends where the next one begins",
           q + 1 >= N || cp.cend(q) == cp.cbegin(q + 1));
      }
    }
    if (any) {
      eq("all regions", values(cp.begin(), cp.end()), all);
      eq("all regions, read-only", values(cp.cbegin(), cp.cend()), all);
      eq("all regions, to write", values(p.begin(), p.end()), all);
      ok("not empty", !p.empty());
    }
    ok("valid", p.validate());
  }
}

// ------------------------------------------------------------- procedures
struct Visit {
  PCur c;
  bool internal, module;
};
struct Collect {
  std::vector<Visit> v;
  int rc = 0;
  bool operator()(PF &, PCur c, bool i, bool m) {
    v.push_back({c, i, m});
    return (int)v.size() == rc;
  }
};

std::string upper(std::string s) {
  for (char &c : s)
    c = (char)::toupper((unsigned char)c);
  return s;
}

struct PModel {
  std::string name;
  bool headless, main;
  int kind;
  bool end_typed, end_named;
  std::list<LL_Stmt *> region[8];
};

void views(Proc &p, PModel const &m, bool writable) {
  Proc const &cp = p;
  auto same = [&](char const *what, int r, auto b, auto e) {
    auto w = m.region[r].begin();
    int n = 0;
    for (; b != e; ++b, ++w) {
      if (w == m.region[r].end())
        why(std::string(what) + " of region " + std::to_string(r) +
            " has a statement too many");
      if (&*b != *w)
        why(std::string(what) + " of region " + std::to_string(r) +
            " differs at its statement " + std::to_string(n));
      ++n;
    }
    if (w != m.region[r].end())
      why(std::string(what) + " of region " + std::to_string(r) +
          " misses a statement");
  };
  for (int r = 0; r < 8; ++r) {
    auto const tag = (Proc::Region_Tag)r;
    eq("has_region", cp.has_region(tag), !m.region[r].empty());
    auto cr = cp.crange(tag);
    same("crange", r, cr.begin(), cr.end());
    eq("size of crange", (long)cr.size(), (long)m.region[r].size());
    same("cbegin to cend", r, cp.cbegin(tag), cp.cend(tag));
    same("begin to end of const", r, cp.begin(tag), cp.end(tag));
    eq("the region of cbegin", (int)cp.cbegin(tag).get_region(), r);
    if (!m.region[r].empty())
      ok("clast", &*cp.clast(tag) == m.region[r].back());
    if (writable) {
      auto rg = p.range(tag);
      same("range", r, rg.begin(), rg.end());
      same("begin to end", r, p.begin(tag), p.end(tag));
      eq("the region of begin", (int)p.begin(tag).get_region(), r);
      eq("the region of end", (int)p.end(tag).get_region(), r);
      if (!m.region[r].empty())
        ok("last", &*p.last(tag) == m.region[r].back());
    }
  }
  ok("initialized", p.procedure_initialized() && (bool)p);
  eq("main program", p.is_main_program(), m.main);
  eq("main program without its statement", p.headless_main_program(),
     m.headless);
  eq("name", upper(p.name()), upper(m.name));
}

char const *const words[] = {"subroutine", "function", "program", "procedure"};

std::string squeeze(LL_Stmt &s) {
  std::ostringstream os;
  bool first = true;
  for (auto const &t : s) {
    if (!first)
      os << ' ';
    first = false;
    os << t.text();
  }
  return os.str();
}

// i: make's five, the procedure, then (op, a, b, c)*
void c16(Case const &cs) {
  if (cs.i.size() < 2)
    throw Skip();
  if (cs.i[0] < 0) {
    partition(cs.i, 1);
    return;
  }
  if (cs.i.size() < 6)
    throw Skip();
  Quiet quiet;
  Made m{Gen(cs.i[0], (int)cs.i[1]), {}, nullptr};
  make(cs, m);
  if (!read(m, m.lay.text) || m.f->parse_tree().empty() || !*m.f)
    throw Skip(); // C28
  PF &f = *m.f;
  if (f.statements().size() != m.g.st.size())
    throw Skip();
  std::vector<LL_STMT_SEQ::iterator> its;
  for (auto it = f.statements().begin(); it != f.statements().end(); ++it)
    its.push_back(it);
  // every procedure, once, in order
  Collect col;
  col.rc = (int)(cs.i[5] % 7);
  bool const rv = Procedure_Visitor<PF, Collect>(f, col).visit();
  eq("procedures visited", (long)col.v.size(), (long)m.g.procs.size());
  eq("result of the visit", rv, col.rc >= 1 && col.rc <= (int)col.v.size());
  static int const tags[] = {T(PG_SUBROUTINE_SUBPROGRAM),
                             T(PG_FUNCTION_SUBPROGRAM), T(PG_MAIN_PROGRAM),
                             T(PG_SEPARATE_MODULE_SUBPROGRAM)};
  for (size_t k = 0; k < col.v.size(); ++k) {
    ProcInfo const &w = m.g.procs[k];
    Visit &v = col.v[k];
    eq("kind of procedure", v.c->syntag(), tags[w.kind]);
    eq("internal", v.internal, w.internal);
    eq("in a module", v.module, w.module);
    ok("the procedure's statements",
       v.c->stmt_range().begin() == its[(size_t)w.first] &&
           v.c->stmt_range().size() == (size_t)(w.last - w.first));
  }
  // something that is no procedure
  {
    Proc p(f);
    ok("no procedure is taken from the root", !p.ingest(f.parse_tree().cursor()));
    ok("nothing taken", !p);
  }
  if (col.v.empty())
    return;
  size_t const pi = (size_t)cs.i[5] % col.v.size();
  ProcInfo const &w = m.g.procs[pi];
  Proc p(f);
  ok("a fresh procedure is not initialized", !p.procedure_initialized());
  ok("ingest", p.ingest(col.v[pi].c));
  PModel md;
  md.name = w.name;
  md.kind = w.kind;
  md.headless = w.headless;
  md.main = w.kind == 2;
  md.end_typed = w.end_typed;
  md.end_named = w.end_named;
  for (int r = 0; r < 8; ++r)
    for (int k : w.region[r])
      md.region[r].push_back(&*its[(size_t)k]);
  views(p, md, false);
  bool edited = false;
  auto labels = [&] {
    if (md.main && edited)
      return; // its first statement may be new
    std::vector<int> got, want;
    p.scan_out_labels(std::back_inserter(got));
    for (auto const &r : md.region)
      for (LL_Stmt *s : r)
        if (s->has_label())
          want.push_back(s->label());
    std::ostringstream a, b;
    for (int v : got)
      a << v << ' ';
    for (int v : want)
      b << v << ' ';
    eq("labels of the procedure", a.str(), b.str());
  };
  labels();
  for (size_t k = 6; k + 3 < cs.i.size(); k += 4) {
    long const a = cs.i[k + 1], b = cs.i[k + 2], d = cs.i[k + 3];
    int const r = (int)(a % 8);
    switch (cs.i[k] % 7) {
    case 0: case 1: { // a new statement
      auto pos = p.begin((Proc::Region_Tag)r);
      size_t const n = md.region[r].size();
      size_t at = (size_t)b % (n + 1);
      if (r == 7 && at == n)
        at = n - 1;
      std::advance(pos, at);
      std::string const v = "newsub" + std::to_string(k);
      auto got = p.emplace_stmt(pos, Logical_Line("call " + v),
                                Syntax_Tags::SG_CALL_STMT, d % 2);
      eq("the region of the new statement", (int)got.get_region(), r);
      eq("the new statement", squeeze(*got), "call " + v);
      eq("tag of the new statement", got->stmt_tag(false), T(SG_CALL_STMT));
      ok("the new statement has a tree", !got->stmt_tree().empty());
      auto wp = md.region[r].begin();
      std::advance(wp, at);
      LL_Stmt *before = wp == md.region[r].end() ? nullptr : *wp;
      md.region[r].insert(wp, &*got);
      if (before)
        ok("the new statement stands before the old one",
           &*std::next(LL_STMT_SEQ::iterator(got)) == before);
      edited = true;
      if (md.headless && r == 0)
        return; // a call instead of a program statement
      if (r == 7 || r == 0)
        return; // not the procedure's own statements any more
      break;
    }
    case 2: { // another text
      if (r == 0 || r == 7 || md.region[r].empty())
        break;
      auto pos = p.begin((Proc::Region_Tag)r);
      size_t const at = (size_t)b % md.region[r].size();
      std::advance(pos, at);
      LL_Stmt *const old = &*pos;
      bool comments = false; // replace_main_text does not take these yet
      for (auto const &fl : pos->ll().layout())
        comments = comments || !fl.is_fortran();
      if (comments)
        break;
      p.replace_stmt(pos, "call other" + std::to_string(k),
                     Syntax_Tags::SG_CALL_STMT);
      ok("the replaced statement stays where it was",
         &*pos == old);
      eq("the replaced statement", squeeze(*pos),
         "call other" + std::to_string(k));
      edited = true;
      break;
    }
    case 3: { // another name
      std::string const n = b % 5 ? "nn" + std::to_string(b % 3) : md.name;
      if (n.empty())
        break;
      bool const same = p.name() == n;
      eq("renamed", p.rename(n), !same);
      if (md.headless) {
        auto it = LL_STMT_SEQ::iterator(p.begin(Proc::PROC_BEGIN));
        md.region[0].push_back(&*it);
        md.headless = false;
        edited = true;
        eq("the program statement", squeeze(*it), "program " + n);
      }
      md.name = n;
      std::string const e = squeeze(*p.begin(Proc::PROC_END));
      if (md.end_named)
        ok("the end statement has the new name",
           e.size() > n.size() &&
               upper(e.substr(e.size() - n.size())) == upper(n));
      break;
    }
    case 4: { // a complete end statement
      bool const changed = p.complete_end_stmt();
      bool const want =
          !md.end_typed || (!md.end_named && !md.headless);
      eq("end statement completed", changed, want);
      if (!md.headless)
        md.end_named = true;
      md.end_typed = true;
      std::string const e = squeeze(*p.begin(Proc::PROC_END));
      std::string expect = std::string("end ") + words[md.kind];
      if (!md.headless)
        expect += " " + md.name;
      eq("the end statement", upper(e), upper(expect));
      break;
    }
    case 5: // start over
      if (edited)
        break;
      p.clear();
      ok("cleared", !p.procedure_initialized());
      ok("ingest", p.ingest(col.v[pi].c));
      break;
    default:
      break;
    }
    views(p, md, d / 2 % 2);
    labels();
  }
  // the regions, one after the other, are the statements of the file
  LL_STMT_SEQ::iterator it = f.statements().begin();
  LL_Stmt *first = nullptr;
  for (auto const &r : md.region)
    if (!r.empty()) {
      first = r.front();
      break;
    }
  while (it != f.statements().end() && &*it != first)
    ++it;
  for (auto const &r : md.region)
    for (LL_Stmt *s : r) {
      ok("the regions stand one after the other",
         it != f.statements().end() && &*it == s);
      ++it;
    }
}
void en16(std::function<void(Case const &)> const &f) {
  // partitions: two stretches, empties looked at, an insertion
  for (long a = 0; a < 5; ++a)
    for (long b = a; b < 5; ++b)
      for (long x = 0; x < 5; ++x)
        for (long at = 0; at < 3; ++at)
          for (long y = 0; y < 6; ++y) {
            Case c;
            c.i = {-1, 0, a, 1, 0, 0, b, 2, 1};
            if (y < 5)
              c.i.insert(c.i.end(), {2, y, 0, 0});
            c.i.insert(c.i.end(), {1, x, at, at + y});
            c.i.insert(c.i.end(), {1, b, 0, 1, 2, a, 0, 0});
            f(c);
          }
  for (long unit : {0, 1, 4, 5, 6})
    for (long b : {0, 1, 2, 4, 8, 12, 20})
      for (long seed = 1; seed <= 4; ++seed)
        for (long r = 0; r < 8; ++r)
          for (long at : {0, 1, 5}) {
            Case c;
            c.i = {seed * 1000 + b, b, seed % 2, -1, unit, seed};
            c.i.insert(c.i.end(), {0, r, at, seed});
            c.i.insert(c.i.end(), {3, 0, 1, 2, 4, 0, 0, 3});
            c.i.insert(c.i.end(), {0, r + 1, at, 1, 2, r, at, 0});
            f(c);
            c.i.erase(c.i.begin() + 6, c.i.begin() + 10);
            f(c);
          }
}
Case rnd16(Rng &r) {
  Case c;
  if (r.chance(30)) {
    c.i = {-1};
    int n = r.range(1, 6);
    for (int k = 0; k < n; ++k)
      for (long v : {r.chance(70) ? 0 : r.below(6), r.below(5), r.below(4),
                     r.below(30)})
        c.i.push_back(v);
    n = r.range(0, 8);
    for (int k = 0; k < n; ++k)
      for (long v : {r.range(1, 5), r.below(5), r.below(4), r.below(30)})
        c.i.push_back(v);
    return c;
  }
  c.i = {(long)(r.next() >> 40), r.range(0, 40), r.below(2), -1,
         r.chance(50) ? r.range(0, 8) : -1, r.below(30)};
  int n = r.range(0, 8);
  while (n--)
    for (long v : {r.below(7), r.below(8), r.below(9), r.below(4)})
      c.i.push_back(v);
  return c;
}

// ------------------------------------------------------------- indentation
std::string no_blanks(std::string const &s) {
  std::string r;
  for (char c : s)
    if (c != ' ')
      r += c;
  return r;
}
std::vector<std::string> split(std::string const &t) {
  std::vector<std::string> r;
  std::istringstream is(t);
  std::string l;
  while (std::getline(is, l))
    r.push_back(l);
  return r;
}
// i: make's five, table kind, table value, continued offset
void c29(Case const &cs) {
  if (cs.i.size() < 8)
    throw Skip();
  Quiet quiet;
  Made m{Gen(cs.i[0], (int)cs.i[1]), {}, nullptr};
  make(cs, m);
  if (!read(m, m.lay.text) || m.f->parse_tree().empty() || !*m.f)
    throw Skip(); // C28
  PF &f = *m.f;
  if (f.statements().size() != m.g.st.size())
    throw Skip();
  int const v = (int)(cs.i[6] % 9), off = (int)(cs.i[7] % 9);
  Indent_Table tab;
  switch (cs.i[5] % 4) {
  case 0:
    tab.apply_constant_indent(v);
    break;
  case 1:
    tab.apply_emacs_indent();
    break;
  case 2:
    tab.apply_constant_fixed_indent(v);
    break;
  default: {
    Rng r((uint64_t)cs.i[6] + 99);
    for (int t = Syntax_Tags::PG_000_LB + 1; t < Syntax_Tags::PG_ZZZ_UB; ++t)
      tab.set_indent(t, r.chance(50) ? 0 : r.below(6));
  }
  }
  tab.set_continued_offset(off);
  // where each statement goes
  auto const &nd = m.g.nodes;
  std::vector<int> depth(m.g.st.size(), -1), at(nd.size(), 0);
  bool shared = false;
  for (size_t k = 0; k < nd.size(); ++k) {
    shared = shared || nd[k].tag == T(PG_INNER_SHARED_DO_CONSTRUCT);
    if (nd[k].parent < 0)
      continue;
    Node const &p = nd[(size_t)nd[k].parent];
    int d = at[(size_t)nd[k].parent] + tab[p.tag];
    if (p.tag == T(PG_DERIVED_TYPE_DEF) || p.tag == T(PG_ENUM_DEF) ||
        p.tag == T(PG_CASE_CONSTRUCT))
      if (nd[k].stmt >= 0 &&
          (nd[k].first == p.first || nd[k].last == p.last))
        d -= tab[p.tag];
    at[k] = d;
    if (nd[k].stmt >= 0)
      depth[(size_t)nd[k].stmt] = d;
  }
  std::vector<std::string> const before = split(m.lay.text);
  bool const changed = f.indent(tab);
  std::string const text = text_of(f);
  std::vector<std::string> const after = split(text);
  eq("lines of the file", (long)after.size(), (long)before.size());
  for (size_t k = 0; k < before.size(); ++k)
    eq("text of a line", no_blanks(after[k]), no_blanks(before[k]));
  size_t next = 0; // the statement that the line belongs to
  for (size_t ln = 0; ln < after.size(); ++ln) {
    while (next < m.g.st.size() &&
           (m.lay.line[next] < (int)ln || !m.lay.starts[next]))
      ++next;
    std::string const &l = after[ln];
    auto const say = [&](size_t got, size_t want) {
      if (got != want)
        why("line " + std::to_string(ln + 1) + " starts in column " +
            std::to_string(got) + " instead of " + std::to_string(want) +
            "\nbefore:\n" + m.lay.text + "after:\n" + text);
    };
    size_t const bl = l.find_first_not_of(' ');
    if (bl == std::string::npos)
      continue;
    if (next < m.g.st.size() && m.lay.line[next] == (int)ln) {
      Stm const &s = m.g.st[next];
      size_t const d = (size_t)depth[next];
      if (s.label) {
        size_t const w = std::to_string(s.label).size();
        eq("column of a label", (long)bl, 0L);
        say(l.find_first_not_of(' ', w), std::max(d, w + 1));
      } else
        say(bl, d);
      continue;
    }
    // a line of comment before, or a line that continues, a statement
    size_t prev = m.g.st.size();
    for (size_t q = 0; q < m.g.st.size() && m.lay.line[q] < (int)ln; ++q)
      if (m.lay.starts[q])
        prev = q;
    bool inside = false;
    if (prev < m.g.st.size()) {
      std::string const &pl = before[(size_t)m.lay.line[prev]];
      inside = pl.size() > 1 && pl.compare(pl.size() - 2, 2, " &") == 0 &&
               (int)ln <= m.lay.line[prev] + 2 &&
               (ln < 1 || (int)ln == m.lay.line[prev] + 1 ||
                before[ln - 1] == "! in between");
    }
    if (inside) {
      if (l[bl] != '&')
        say(bl, (size_t)depth[prev] + (size_t)off);
    } else if (next < m.g.st.size()) {
      ok("a remark", l[bl] == '!');
      say(bl, (size_t)depth[next]);
    }
  }
  if (!shared) {
    eq("indent says whether it changed the text", changed,
       text != m.lay.text);
    eq("a second indent changes nothing", f.indent(tab), false);
  } else
    f.indent(tab);
  eq("text after a second indent", text_of(f), text);
}
void en29(std::function<void(Case const &)> const &f) {
  for (long unit : {0, 1, 4, 6})
    for (long b : {1, 2, 3, 5, 9, 14})
      for (long only = -1; only < 17; ++only)
        for (long seed = 1; seed <= 4; ++seed) {
          Case c;
          c.i = {seed * 1000 + b, b, seed % 2, only, unit, seed, seed + b, 5};
          f(c);
          c.i[5] = 3;
          f(c);
        }
}
Case rnd29(Rng &r) {
  Case c;
  c.i = {(long)(r.next() >> 40), r.range(1, 60), r.below(2), -1, -1,
         r.below(4), r.below(1000), r.below(9)};
  return c;
}

void more_props() {
  props()["C29"] = {c29, en29, rnd29,
                    "every construct at the head of a subroutine, function, "
                    "main program and module, indented by each scheme and by "
                    "arbitrary tables; then random programs of up to 60 "
                    "statements"};
  props()["C16"] = {c16, en16, rnd16,
                    "partitions of a list with two stretches, one insertion "
                    "and one empty region looked at; every region of small "
                    "procedures with a statement put in, a new name and a "
                    "completed end; then random histories of up to 14 edits"};
}
} // namespace
