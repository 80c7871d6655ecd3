"""Contracts for SL_Range, SL_Const_Range, SL_Range_Iterator and LL_TT_Range:
a stretch [begin, end) of the elements of a Safe_List.

A range is `bad` (default constructed or cleared) or good: its ends are
positions of one list, end - begin is its size.  end may be the list's sentry,
so it designates an element.
"""
from cxxvc.contract import Contract, Clause
from cxxvc.terms import *
from cxxvc.values import Unsupported, SIter, Rec

T0 = "FLPR::Token_Text"
CL = "FLPR::SL_Range<%s>" % T0
CC = "FLPR::SL_Const_Range<%s>" % T0
RI = "FLPR::SL_Range_Iterator<%s>" % T0
IT = "std::_List_iterator<%s>" % T0
CIT = "std::_List_const_iterator<%s>" % T0
P = ("C14",)
SRC = "sl_range"
C = []


class R:
    def __init__(self, v, f, new=False):
        if isinstance(f, Rec):
            f = f.f
        if not isinstance(f.get("begin_"), SIter) or not isinstance(
                f.get("end_"), SIter) or "size_" not in f:
            raise Unsupported("SL_Range representation changed")
        self.lv = f["begin_"].lv
        self.b, self.e, self.size = f["begin_"].i, f["end_"].i, f["size_"]
        self.bad = f.get("bad_", FALSE)
        self.seq = v.seq(f["begin_"], new)
        if f["end_"].lv != self.lv:
            raise Unsupported("a range over two lists")

    def good(self):
        return And(Not(self.bad), Le(0, self.b), Le(0, self.size), Eq(
            Add(self.b, self.size), self.e), Lt(self.e, self.seq.length))

    def wf(self):
        return Or(self.bad, self.good())

    def empty(self):
        return Or(self.bad, Eq(self.size, 0))

    def count(self):
        return Ite(self.bad, 0, self.size)

    def same(self, o):
        return And(Iff(self.bad, o.bad), Implies(Not(self.bad), And(
            Eq(self.b, o.b), Eq(self.e, o.e), Eq(self.size, o.size))))

    def is_(self, b, e):
        return And(Not(self.bad), Eq(self.b, b), Eq(self.e, e),
                   Eq(self.size, Sub(e, b)))


def r0(v):
    return R(v, v.this._v)


def r1(v):
    return R(v, v.this_new._v, True)


def arg(v, i):
    return R(v, v.old(i)._v)


def ri(v, new=False):
    f = (v.this_new if new else v.this)._v.f
    if not isinstance(f.get("curr_"), SIter):
        raise Unsupported("SL_Range_Iterator representation changed")
    return f["curr_"].i


def pos(v, x, lv=None):
    if not isinstance(x, SIter) or (lv is not None and x.lv != lv):
        raise Unsupported("iterator")
    return x.i


def add(name, params, req=None, ens=None, cls=CL, wf=True, **k):
    def requires(v):
        out = [("a range", r0(v).wf())] if wf else []
        return out + (req(v) if req else [])
    C.append(Contract(cls + "::" + name, params, src=SRC, requires=requires,
                      ensures=ens, **k))


def good(v):
    return [("a good range", r0(v).good())]


def some(v):
    return [("a range with elements", And(r0(v).good(), Lt(
        0, r0(v).size)))]


def ret_at(note, f):
    return lambda v: [Clause(note, Eq(pos(v, v.ret, r0(v).lv), f(r0(v))), P)]


def ret_elem(note, f):
    def ens(v):
        r = r0(v)
        k = f(r)
        rv = v.ret
        x = rv._v if hasattr(rv, "_v") else rv
        if not isinstance(x, Rec):
            raise Unsupported("element")
        return [Clause(note, And(*[
            Eq(x.f[p[0]], Sel(a, k)) for p, a in r.seq.arrs.items()
            if len(p) == 1 and p[0] in x.f and isinstance(
                x.f[p[0]], T)]), P)]
    return ens


for cls, cs in ((CL, (True, False)), (CC, (True,))):
    for c in cs:
        add("begin", [], good, ret_at("the first position", lambda r: r.b),
            cls=cls, const=c)
        add("end", [], good, ret_at("the position past the last",
                                    lambda r: r.e), cls=cls, const=c)
        add("last", [], some, ret_at("the last position", lambda r: Sub(
            r.e, 1)), cls=cls, const=c)
        add("front", [], some, ret_elem("the first element", lambda r: r.b),
            cls=cls, const=c, call=False)
        add("back", [], some, ret_elem("the last element", lambda r: Sub(
            r.e, 1)), cls=cls, const=c, call=False)
    add("cbegin", [], good, ret_at("the first position", lambda r: r.b),
        cls=cls, const=True)
    add("cend", [], good, ret_at("the position past the last",
                                 lambda r: r.e), cls=cls, const=True)
    add("empty", [], None, lambda v: [Clause(
        "no elements", Iff(v.ret, r0(v).empty()), P)], cls=cls, const=True)
    add("size", [], None, lambda v: [Clause(
        "the number of elements", Eq(v.ret, r0(v).count()), P)], cls=cls,
        const=True)

add("clear", [], None, lambda v: [Clause(
    "no elements any more", And(r1(v).bad, Eq(r1(v).size, 0)), P)],
    frame=("this",))
add("clear", [IT], lambda v: [("a position", And(Le(0, pos(v, v.old(0))), Lt(
    pos(v, v.old(0)), v.seq(v.old(0)).length)))], lambda v: [Clause(
        "empty at the position given", r1(v).is_(
            pos(v, v.old(0), r1(v).lv), pos(v, v.old(0))), P)],
    frame=("this",))


def _equal(v):
    a, b = r0(v), arg(v, 0)
    return [Clause("the same stretch of the list, or both bad", Iff(
        v.ret, a.same(b)), P)]


add("equal", ["SL_Range<Token_Text>"], lambda v: [("a range", arg(v, 0).wf())],
    _equal)


def _join(front):
    def req(v):
        a, b = r0(v), arg(v, 0)
        adj = Or(Eq(a.b, b.e), Eq(a.b, b.b)) if front else \
            Or(Eq(a.e, b.b), Eq(a.e, b.e))
        return [("a range", b.wf()),
                ("adjacent, or already there", Or(
                    a.empty(), b.empty(), adj))]

    def ens(v):
        a, b, r = r0(v), arg(v, 0), r1(v)
        there = Eq(a.b, b.b) if front else Eq(a.e, b.e)
        joined = r.is_(b.b, a.e) if front else r.is_(a.b, b.e)
        return [
            Clause("joining nothing changes nothing", Implies(
                b.empty(), r.same(a)), P),
            Clause("an empty range becomes the other", Implies(
                And(a.empty(), Not(b.empty())), r.same(b)), P),
            Clause("joining what is there changes nothing", Implies(
                And(Not(a.empty()), Not(b.empty()), there), r.same(a)), P),
            Clause("joining an adjacent range covers both", Implies(
                And(Not(a.empty()), Not(b.empty()), Not(there)), joined), P),
            Clause("still a range", r.wf(), P)]
    return req, ens


for nm, front in (("push_front", True), ("push_back", False)):
    add(nm, ["SL_Range<Token_Text>"], *_join(front), frame=("this",))

add("assign_range", ["SL_Range<Token_Text>"], lambda v: [
    ("a range", arg(v, 0).wf())], lambda v: [Clause(
        "the range given", r1(v).same(arg(v, 0)), P)], frame=("this",))


# ------------------------------------------------------------- constructors
def between(v, i=0, j=1):
    a, b = v.old(i), v.old(j)
    if pos(v, a) is None or a.lv != b.lv:
        raise Unsupported("iterators of two lists")
    return [("a range of the list", And(Le(0, a.i), Le(a.i, b.i), Lt(
        b.i, v.seq(a).length)))]


for cls, it in ((CL, IT), (CC, CIT)):
    nm = cls.split("<")[0].split("::")[-1]
    add(nm, [it, it], between, lambda v: [Clause(
        "the elements between the two positions", r1(v).is_(
            v.old(0).i, v.old(1).i), P)], cls=cls, wf=False,
        frame=("this",))
    add(nm, [it], lambda v: [("an element", And(Le(0, v.old(0).i), Lt(
        Add(v.old(0).i, 1), v.seq(v.old(0)).length)))], lambda v: [Clause(
            "just that element", r1(v).is_(v.old(0).i, Add(
                v.old(0).i, 1)), P)], cls=cls, wf=False, frame=("this",))
add("SL_Range", [], None, lambda v: [Clause(
    "no elements", And(v.this_new._v.f["bad_"], Eq(
        v.this_new._v.f["size_"], 0)), P)], wf=False, frame=("this",))




def whole(v):
    """the list given, with its stored end at the end: (list, its size)"""
    from .safe_list import S_
    return S_(v, v.old(0))


for cls in (CL, CC, RI):
    nm = cls.split("<")[0].split("::")[-1]
    add(nm, ["SL_SEQ"], lambda v: [("a list", whole(v).inv())], lambda v: [
        Clause("all elements of the list", And(r1(v).is_(
            I(0), whole(v).n), Eq(ri(v, True), 0) if "curr_" in
            v.this_new._v.f else TRUE) if r1(v).lv == whole(v).lv else FALSE,
            P)], cls=cls, wf=False, frame=("this",), call=False)
add("SL_Range_Iterator", ["SL_Range<Token_Text>"], lambda v: [
    ("a good range", arg(v, 0).good())], lambda v: [Clause(
        "at the start of the range given", And(r1(v).same(arg(v, 0)), Eq(
            ri(v, True), arg(v, 0).b)), P)], cls=RI, wf=False,
    frame=("this",), call=False)
add("SL_Range_Iterator", [IT], lambda v: [
    ("an element", And(Le(0, v.old(0).i), Lt(Add(v.old(0).i, 1), v.seq(
        v.old(0)).length)))], lambda v: [Clause(
            "at that element, the only one", And(r1(v).is_(
                v.old(0).i, Add(v.old(0).i, 1)), Eq(
                    ri(v, True), v.old(0).i)), P)], cls=RI, wf=False,
    frame=("this",), call=False)

# ------------------------------------------------------- list to copied list
def _rebase(v):
    b0, r, c0 = v.old(0), arg(v, 1), v.old(2)
    o = R(v, v.ret._v, True)
    return [Clause("the same stretch, counted from the start of the copy",
                   o.is_(Add(c0.i, Sub(r.b, b0.i)), Add(c0.i, Sub(
                       r.e, b0.i))), P)]


C.append(Contract(
    "FLPR::rebase", [CIT, "SL_Range<Token_Text>", IT], src=SRC,
    requires=lambda v: [
        ("a good range", arg(v, 1).good()),
        ("starts of lists", And(
            Le(0, v.old(0).i), Le(v.old(0).i, arg(v, 1).b), Le(
                0, v.old(2).i), Lt(Add(v.old(2).i, Sub(
                    arg(v, 1).e, v.old(0).i)), v.seq(v.old(2)).length)))],
    ensures=_rebase))


# ------------------------------------------------------------ range iterator
def _ri_req(v):
    r = r0(v)
    return [("a position of a good range", And(r.good(), Le(
        r.b, ri(v)), Le(ri(v), r.e)))]


add("operator bool", [], _ri_req, lambda v: [Clause(
    "true before the end", Iff(v.ret, Ne(ri(v), r0(v).e)), P)], cls=RI)
add("operator!", [], _ri_req, lambda v: [Clause(
    "true at the end", Iff(v.ret, Eq(ri(v), r0(v).e)), P)], cls=RI)
add("iter", [], _ri_req, lambda v: [Clause(
    "where it is", Eq(pos(v, v.ret, r0(v).lv), ri(v)), P)], cls=RI)


def _deref(v):
    s, x = r0(v).seq, v.ret._v
    got = s.shape.split(x)
    return [Clause("the element there", And(*[Eq(got[p], Sel(
        s.arrs[p], ri(v))) for p in got]), P)]


add("operator*", [], lambda v: _ri_req(v) + [("before the end", Lt(
    ri(v), r0(v).e))], _deref, cls=RI, call=False)


def _advance(v):
    r, n = r0(v), r1(v)
    to = Ite(Eq(ri(v), r.e), r.e, Add(ri(v), 1))
    return [Clause("one step, never beyond the end", And(
        n.same(r), Eq(ri(v, True), to)), P),
        Clause("true if there is an element", Iff(
            v.ret, Ne(to, r.e)), P)]


add("advance", [], _ri_req, _advance, cls=RI, frame=("this.curr_",))

# --------------------------------------------------------------- LL_TT_Range
LL = "FLPR::LL_TT_Range"


def first(field):
    def ens(v):
        r = r0(v)
        return [Clause("that of the first token, -1 without one", Eq(
            v.ret, Ite(r.empty(), -1, Sel(r.seq.arrs[(field,)], r.b))), P)]
    return ens


add("linenum", [], None, first("start_line"), cls=LL)
add("colnum", [], None, first("start_pos"), cls=LL)


def _ll_it(v):
    x = v.this._v.f["line_ref_"]
    return [Clause("the line set", Eq(pos(v, v.ret, x.lv), x.i), P)]


add("it", [], lambda v: [("a line is set", v.this._v.f["ll_set_"])], _ll_it,
    cls=LL)


def _set_it(v):
    f = v.this_new._v.f
    return [Clause("the line is the one given, the tokens are kept", And(
        f["ll_set_"], Eq(f["line_ref_"].i, pos(
            v, v.old(0), f["line_ref_"].lv)), r1(v).same(r0(v))), P)]


add("set_it", ["LL_IT"], None, _set_it, cls=LL, frame=("this",))


def _ll_equal(v):
    a, b = v.this._v.f["line_ref_"], v.old(0)._v.f["line_ref_"]
    if a.lv != b.lv:
        raise Unsupported("lines of two lists")
    return [Clause("the same tokens of the same line", Iff(v.ret, And(
        r0(v).same(arg(v, 0)), Eq(a.i, b.i))), P)]


add("equal", ["LL_TT_Range"], lambda v: [("a range", arg(v, 0).wf())], _ll_equal,
    cls=LL)

# the members to look at are the ones used here
USE = r"""
#include "flpr/TT_Stream.hh"
namespace cxxvc_use {
using namespace FLPR;
using It = TT_SEQ::iterator;
using CIt = TT_SEQ::const_iterator;
void use(TT_Range &a, TT_Range const &b, TT_SEQ &s, TT_SEQ const &cs, It i,
         It j, LL_TT_Range &l, LL_TT_Range const &m, LL_SEQ::iterator li) {
  TT_Range r0, r1(s), r2(i, j), r3(i), r4(b);
  r0 = b;
  a.begin(), b.begin(), b.cbegin(), a.last(), b.last(), a.end(), b.end();
  b.cend(), a.front(), b.front(), a.back(), b.back();
  a.clear();
  a.clear(i);
  b.empty();
  b.equal(a);
  a.push_front(b);
  a.push_back(b);
  a.assign_range(b);
  a.assign_range(TT_Range(i));
  b.size();
  rebase(CIt(i), b, j);
  SL_Const_Range<Token_Text> c0(cs), c1{CIt(i), CIt(j)}, c2{CIt(i)};
  c1.begin(), c1.cbegin(), c1.last(), c1.end(), c1.cend(), c1.front();
  c1.back(), c1.empty(), c1.size();
  SL_Range_Iterator<Token_Text> e(a), e1(s), e2(i);
  bool(e), !e, e.iter(), It(e), CIt(e), e->token, (*e).token, e.advance();
  m.linenum(), m.colnum(), m.it(), l.set_it(li), m.equal(l);
}
} // namespace cxxvc_use
"""
