"""Contracts for Label_Stack: nesting levels of shared loop labels."""
from cxxvc.contract import Contract, Clause
from cxxvc.seq import Vec
from cxxvc.terms import *
from cxxvc.values import Unsupported

SRC = "Label_Stack.hh"
CL = "FLPR::Label_Stack"
BIG = 1 << 28
P = ("C17",)
C = []


class Stk:
    def __init__(self, rec):
        vs = [x for x in rec._v.f.values()]
        if len(vs) != 1 or not isinstance(vs[0], Vec) or set(
                vs[0].arrs) != {("label",), ("level",)}:
            raise Unsupported("Label_Stack representation changed")
        self.v = vs[0]
        self.n = vs[0].length

    def lab(self, k):
        return Sel(self.v.arrs[("label",)], k)

    def lev(self, k):
        return Sel(self.v.arrs[("level",)], k)


def wf(a):
    return [("size", And(Le(0, a.n), Lt(a.n, BIG))),
            ("levels", AllK(0, a.n, lambda k: Le(-1, a.lev(k))))]


def kept(a, b, lo, hi, levels=True):
    return AllK(lo, hi, lambda k: And(
        Eq(b.lab(k), a.lab(k)),
        Eq(b.lev(k), a.lev(k)) if levels else TRUE))


def _push(v):
    a, b = Stk(v.this), Stk(v.this_new)
    return [Clause("the label is on top, its level not yet known", And(
        Eq(b.n, Add(a.n, 1)), Eq(b.lab(a.n), v.old(0)),
        Eq(b.lev(a.n), -1)), P),
        Clause("the rest of the stack is kept", kept(a, b, 0, a.n), P)]


def _pop(v):
    a, b = Stk(v.this), Stk(v.this_new)
    return [Clause("one entry is gone", Eq(b.n, Sub(a.n, 1)), P),
            Clause("the rest of the stack is kept", kept(a, b, 0, b.n), P)]


def run_start(a, s, label):
    """entries [s, n) are the run of `label` at the top of the stack"""
    return And(Le(0, s), Lt(s, a.n),
               AllK(s, a.n, lambda k: Eq(a.lab(k), label)),
               Implies(Lt(0, s), Ne(a.lab(Sub(s, 1)), label)))


def _level(v):
    a, b = Stk(v.this), Stk(v.this_new)
    n, lab = a.n, v.old(0)
    top = Sub(n, 1)
    hit = And(Lt(0, n), Eq(a.lab(top), lab))
    fresh_ = And(hit, Eq(a.lev(top), -1))
    return [
        Clause("no level unless the label is on top", Implies(
            Not(hit), Eq(v.ret, -1)), P),
        Clause("the level of the top entry is the answer", Implies(
            hit, Eq(v.ret, b.lev(top))), P),
        Clause("the stack keeps its labels", And(
            Eq(b.n, n), kept(a, b, 0, n, levels=False)), P),
        Clause("levels once given are kept", Implies(
            Not(fresh_), kept(a, b, 0, n)), P),
        Clause("the entries of the run on top are numbered from the bottom, "
               "a lone one is 0, others keep their level",
               Implies(fresh_, ExK(0, n, lambda s: And(
                   run_start(a, s, lab),
                   Ite(Eq(Sub(n, s), 1), Eq(b.lev(s), 0),
                       AllK(s, n, lambda k: Eq(b.lev(k),
                                               Add(Sub(k, s), 1)))),
                   AllK(0, s, lambda k: Eq(b.lev(k), a.lev(k)))))), P),
    ]


def add(name, params, **k):
    req = k.pop("requires", lambda v: [])
    C.append(Contract(CL + "::" + name, params, src=SRC,
                      requires=lambda v: wf(Stk(v.this)) + req(v), **k))


add("push", ["int"], frame=("this",), ensures=_push)
add("pop", [], frame=("this",), ensures=_pop,
    requires=lambda v: [("not empty", Lt(0, Stk(v.this).n))])
add("is_top", ["int"], ensures=lambda v: [Clause(
    "true exactly for the label on top", Iff(v.ret, And(
        Lt(0, Stk(v.this).n),
        Eq(Stk(v.this).lab(Sub(Stk(v.this).n, 1)), v.old(0)))), P)])
add("level", ["int"], frame=("this",), ensures=_level)
add("empty", [], ensures=lambda v: [Clause(
    "empty", Iff(v.ret, Eq(Stk(v.this).n, 0)), P)])
add("size", [], ensures=lambda v: [Clause(
    "size", Eq(v.ret, Stk(v.this).n), P)])


def pool(ctx):
    """entries numbered so far, entries not reached yet"""
    arrs = [(o, h) for o, h in ctx.arrays()]
    ints = ctx.ints()
    for o, h in arrs:
        for oi, i in ints:
            yield AllK(0, i, lambda k: Eq(Sel(h, k), Sel(o, k)))
            for oj, j in ints:
                yield AllK(oj, j, lambda k: Eq(Sel(h, k), Add(Sub(k, oj), 1)))
                # reverse iterators hold one past their element
                yield AllK(oi, i, lambda k: Eq(Sel(h, k), Add(Sub(k, oi), 1)))
            yield AllK(0, oi, lambda k: Eq(Sel(h, k), Sel(o, k)))
