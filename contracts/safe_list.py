"""Contracts for Safe_List: a list with a hidden last element that serves as
end(), so that a stored end stays the end.

The underlying std::list is a sequence of n+1 elements (lists.py); the object
invariant is that my_end_ is the position of the last of them.  Elements are
compared field by field, whatever the fields are.
"""
from cxxvc.contract import Contract, Clause
from cxxvc.seq import Vec
from cxxvc.terms import *
from cxxvc.values import Unsupported, SIter, Rec, ListRef

T0 = "FLPR::Token_Text"
CL = "FLPR::Safe_List<%s, std::allocator<%s>>" % (T0, T0)
CIT = "std::_List_const_iterator<%s>" % T0
IT = "std::_List_iterator<%s>" % T0
SL = "Safe_List<Token_Text>"
P = ("C13",)
SRC = "safe_list"
C = []


class S_:
    def __init__(self, v, rec, new=False):
        f = rec._v.f
        ls = [x for x in f.values() if isinstance(x, ListRef)]
        it = [x for x in f.values() if isinstance(x, SIter)]
        if len(f) != 2 or len(ls) != 1 or len(it) != 1:
            raise Unsupported("Safe_List representation changed")
        self.lv, self.end = ls[0].lv, it[0]
        self.seq = v.seq(ls[0], new)
        if not isinstance(self.seq, Vec):
            raise Unsupported("elements not tracked")
        self.n = Sub(self.seq.length, 1)

    def inv(self):
        if self.end.lv != self.lv:
            return FALSE
        return And(Le(0, self.n), Eq(self.end.i, self.n))


def old(v):
    return S_(v, v.this)


def new(v):
    return S_(v, v.this_new, True)


def inv(v):
    return [Clause("the stored end is the position past the last element",
                   new(v).inv(), P)]


def at(s, k):
    return {p: Sel(a, k) for p, a in s.seq.arrs.items()}


def same(x, y):
    if set(x) != set(y):
        raise Unsupported("elements of different types")
    return And(*[Eq(x[p], y[p]) for p in x])


def copied(d, lo, hi, s, by, note):
    """elements [lo, hi) of d are those of s, `by` places earlier"""
    return Clause(note, AllK(lo, hi, lambda k: same(at(d, k), at(
        s, Sub(k, by)))), P)


def held(v, to):
    """iterators held across the call: position j becomes to(j); the end is
    position n"""
    a, b = old(v), new(v)
    if a.lv != b.lv:
        return [Clause("stored positions stay with their elements", FALSE,
                       P)]
    k = len(v.s0.moves)
    now = lambda j: v.s1.since(SIter(a.lv, j), k).i
    return [Clause("stored positions stay with their elements", AllK(
        0, a.n, lambda j: Eq(now(j), to(j))), P),
        Clause("a stored end is still the end", Eq(now(a.n), b.n), P)]


def value(s, x):
    return s.seq.shape.split(x._v if hasattr(x, "_v") else x)


def add(name_, params, req=None, ens=None, wf=True, **k):
    def requires(v):
        out = [("the stored end is the end", old(v).inv())] if wf else []
        return out + (req(v) if req else [])
    C.append(Contract(CL + "::" + name_, params, src=SRC, requires=requires,
                      ensures=ens, call=False, **k))


def size(v, n, note="the number of elements"):
    return Clause(note, Eq(new(v).n, n), P)


def kept_all(v):
    a, b = old(v), new(v)
    return [Clause("nothing changes", And(Eq(a.n, b.n), AllK(
        0, a.n, lambda k: same(at(a, k), at(b, k)))), P)]


def pos(v, i):
    x = v.old(i)
    if not isinstance(x, SIter) or x.lv != old(v).lv:
        raise Unsupported("a position of another list")
    return x.i


# ----------------------------------------------------------------- observers
def ret_pos(f):
    def ens(v):
        s, r = old(v), v.ret
        if not isinstance(r, SIter) or r.lv != s.lv:
            raise Unsupported("a position of another list")
        return [Clause("the position", Eq(r.i, f(s)), P)]
    return ens


def ret_elem(f):
    def ens(v):
        s = old(v)
        return [Clause("the element", same(value(s, v.ret), at(s, f(s))), P)]
    return ens


def some(v):
    return [("not empty", Lt(0, old(v).n))]


for c in (True, False):
    add("begin", [], None, ret_pos(lambda s: I(0)), const=c)
    add("end", [], None, ret_pos(lambda s: s.n), const=c)
    add("front", [], some, ret_elem(lambda s: I(0)), const=c)
    add("back", [], some, ret_elem(lambda s: Sub(s.n, 1)), const=c)
add("cbegin", [], None, ret_pos(lambda s: I(0)), const=True)
add("cend", [], None, ret_pos(lambda s: s.n), const=True)
add("size", [], None, lambda v: [Clause(
    "the number of elements, the hidden one not counted", Eq(
        v.ret, old(v).n), P)], const=True)
add("empty", [], None, lambda v: [Clause(
    "no elements but the hidden one", Iff(v.ret, Eq(old(v).n, 0)), P)],
    const=True)


# ----------------------------------------------------------------- insertion
def ins(p, x=1, ref=None, it=False):
    """one element inserted at p(v); its value is that of argument x"""
    def ens(v):
        a, b, q = old(v), new(v), p(v)
        out = inv(v) + [
            size(v, Add(a.n, 1), "one more element"),
            copied(b, 0, q, a, 0, "the elements before it are kept"),
            copied(b, Add(q, 1), b.n, a, 1, "those after it move up"),
            Clause("the new element", same(at(b, q), value(
                a, v.old(x))), P)]
        out += held(v, lambda j: Ite(Lt(j, q), j, Add(j, 1)))
        if it:
            out += [Clause("the position of the new element", Eq(
                v.ret.i, q) if v.ret.lv == b.lv else FALSE, P)]
        if ref is not None:
            out += [Clause("the element returned", same(value(
                b, v.ret), at(b, q)), P)]
        return out
    return ens


def a_pos(v):
    return [("a position of the list", And(Le(0, pos(v, 0)), Le(
        pos(v, 0), old(v).n)))]


FR = ("this", "list+")
E = T0
for ref in ("&", "&&"):
    add("push_back", [E], None, ins(lambda v: old(v).n, 0), frame=FR,
        name="%s::push_back(T %s)" % (CL, ref), by=ref)
    add("insert", [CIT, E], a_pos, ins(lambda v: pos(v, 0), it=True),
        frame=FR, name="%s::insert(pos, T %s)" % (CL, ref), by=ref)
add("emplace_back", [E], None, ins(lambda v: old(v).n, 0, ref=True),
    frame=FR)
add("emplace_front", [E], None, ins(lambda v: I(0), 0, ref=True), frame=FR)
add("emplace", [CIT, E], a_pos, ins(lambda v: pos(v, 0), it=True), frame=FR)


# ------------------------------------------------------------------- removal
def rem(lo, hi, ret=True):
    def ens(v):
        a, b, p, q = old(v), new(v), lo(v), hi(v)
        out = inv(v) + [
            size(v, Sub(a.n, Sub(q, p)), "just those are gone"),
            copied(b, 0, p, a, 0, "the elements before are kept"),
            copied(b, p, b.n, a, Sub(p, q), "those after move down")]
        from cxxvc.lists import GONE
        out += held(v, lambda j: Ite(Lt(j, p), j, Ite(
            Lt(j, q), GONE, Sub(j, Sub(q, p)))))
        if ret:
            out += [Clause("the position after the removed", Eq(
                v.ret.i, p) if v.ret.lv == b.lv else FALSE, P)]
        return out
    return ens


add("erase", [CIT], lambda v: [("an element", And(Le(0, pos(v, 0)), Lt(
    pos(v, 0), old(v).n)))], rem(lambda v: pos(v, 0), lambda v: Add(
        pos(v, 0), 1)), frame=FR)
add("erase", [CIT, CIT], lambda v: [("a stretch of the list", And(
    Le(0, pos(v, 0)), Le(pos(v, 0), pos(v, 1)), Le(pos(v, 1), old(v).n)))],
    rem(lambda v: pos(v, 0), lambda v: pos(v, 1)), frame=FR)
add("pop_back", [], some, rem(lambda v: Sub(old(v).n, 1), lambda v: old(v).n,
                              False), frame=FR)
add("clear", [], None, lambda v: inv(v) + [size(v, 0, "no elements")],
    frame=FR)


# -------------------------------------------- construction, copying, moving
NM = "Safe_List"
ADD = dict(wf=False, frame=FR)
add(NM, [], None, lambda v: inv(v) + [size(v, 0, "no elements")], **ADD)


def count(v):
    n = v.old(0)
    return [("a size a list can have", And(Le(0, n), Lt(n, 1 << 27)))]


add(NM, ["size_type"], count, lambda v: inv(v) + [size(v, v.old(0))], **ADD)
add(NM, ["size_type", E], count, lambda v: inv(v) + [
    size(v, v.old(0)), Clause("all of the value given", AllK(
        0, new(v).n, lambda k: same(at(new(v), k), value(
            new(v), v.old(1)))), P)], **ADD)


def arg(v, nw=False):
    return S_(v, v.new(0) if nw else v.old(0), nw)


def src_ok(v):
    return [("the stored end of the source is its end", arg(v).inv())]


def taken(v):
    a, b = arg(v), new(v)
    return inv(v) + [size(v, a.n), copied(
        b, 0, b.n, a, 0, "the elements of the source")]


def copy_(v):
    out = taken(v)
    a, b = arg(v), arg(v, True)
    return out + [
        Clause("a list of its own", FALSE if new(v).lv == b.lv else TRUE, P),
        Clause("the source keeps its elements and its end", And(
            b.inv(), Eq(a.n, b.n), AllK(0, a.n, lambda k: same(
                at(a, k), at(b, k)))), P)]


for cp in (True, False):
    add(NM, [SL], src_ok, copy_ if cp else taken, wf=False, frame=FR + (
        () if cp else (0,)), name="%s::%s(%s)" % (
            CL, NM, "const &" if cp else "&&"), by="&" if cp else "&&")
    add("operator=", [SL], src_ok, copy_ if cp else taken, frame=FR + (
        () if cp else (0,)), name="%s::operator=(%s)" % (
            CL, "const &" if cp else "&&"), by="&" if cp else "&&")
USE = r"""
#include "flpr/TT_Stream.hh"
namespace cxxvc_use {
using namespace FLPR;
using L = TT_SEQ;
using It = L::iterator;
using CIt = L::const_iterator;
void use(L &a, L const &b, It i, CIt p, CIt q, Token_Text const &t,
         Token_Text &&r) {
  L l0, l1(b), l2(std::move(a)), l3(3), l4(3, t);
  a = b;
  a = std::move(l0);
  a.back(), b.back(), a.end(), b.end(), b.cend(), a.clear(), a.size();
  a.empty(), a.push_back(t), a.push_back(std::move(r)), a.pop_back();
  a.emplace_back(t), a.emplace(p, t), a.emplace_front(t);
  a.front(), b.front(), a.begin(), b.begin(), b.cbegin();
  a.insert(p, t), a.insert(p, std::move(r)), a.insert(p, i, i);
  a.erase(p), a.erase(p, q);
}
} // namespace cxxvc_use
"""
