"""Contracts for Indent_Table: indentation by grammar tag."""
from cxxvc.contract import Contract, Clause
from cxxvc.seq import Vec
from cxxvc.terms import *
from cxxvc.values import Unsupported

SRC = "Indent_Table.cc"
CL = "FLPR::Indent_Table"
P = ("C24",)
C = []


class Tab:
    def __init__(self, rec):
        f = rec._v.f
        vs = [x for x in f.values() if isinstance(x, Vec)]
        xs = [x for x in f.values() if not isinstance(x, Vec)]
        if len(vs) != 1 or len(xs) != 1 or list(vs[0].arrs) != [()]:
            raise Unsupported("Indent_Table representation changed")
        self.v, self.cont = vs[0], xs[0]

    def at(self, v, tag):
        return Sel(self.v.arrs[()], Sub(tag, first(v)))


def tag(v, name):
    return I(v.ex.enum_value("Syntax_Tags::" + name))


def first(v):
    return Add(tag(v, "PG_000_LB"), 1)


def last(v):
    return tag(v, "PG_ZZZ_UB")


def domain(v, t):
    return And(Le(first(v), t), Lt(t, last(v)))


def wf(v):
    t = Tab(v.this)
    return [("one entry per grammar tag", Eq(t.v.length, Sub(
        last(v), first(v))))]


BLOCKS = ["PG_BLOCK", "PG_EXECUTION_PART", "PG_INTERFACE_SPECIFICATION",
          "PG_INTERNAL_SUBPROGRAM", "PG_MODULE_SUBPROGRAM",
          "PG_SPECIFICATION_PART", "PG_WHERE_BODY_CONSTRUCT"]
PAIRS = ["PG_DERIVED_TYPE_DEF", "PG_ENUM_DEF", "PG_CASE_CONSTRUCT"]
EMACS = [3, 2, 3, 2, 2, 2, 3]


def applied(amount):
    """amount(v, i): indentation of BLOCKS[i]; PAIRS get amount(v, None)"""
    def ens(v):
        a, b = Tab(v.this), Tab(v.this_new)

        def want(t):
            r = a.at(v, t)
            for n in PAIRS:
                r = Ite(Eq(t, tag(v, n)), amount(v, None), r)
            for i, n in enumerate(BLOCKS):
                r = Ite(Eq(t, tag(v, n)), amount(v, i), r)
            return r
        return [
            Clause("blocks, parts and begin/end constructs get their "
                   "indentation, no other tag changes",
                   AllK(first(v), last(v), lambda t: Eq(b.at(v, t), want(t))),
                   P),
            Clause("continued lines are offset by five", Eq(b.cont, 5), P)]
    return ens


def get(v):
    a = Tab(v.this)
    return [Clause("the tag's indentation", Eq(v.ret, a.at(v, v.old(0))), P)]


def _set(v):
    a, b = Tab(v.this), Tab(v.this_new)
    return [Clause("the tag gets the indentation, no other tag changes",
                   AllK(first(v), last(v), lambda t: Eq(b.at(v, t), Ite(
                       Eq(t, v.old(0)), v.old(1), a.at(v, t)))), P),
            Clause("the continued offset is kept", Eq(b.cont, a.cont), P)]


def add(name, params, requires=lambda v: [], **k):
    C.append(Contract(CL + "::" + name, params, src=SRC,
                      requires=lambda v: wf(v) + requires(v), **k))


DOM = lambda v: [("a grammar tag", domain(v, v.old(0)))]
add("apply_constant_indent", ["int"], frame=("this",),
    ensures=applied(lambda v, i: v.old(0)))
add("apply_emacs_indent", [], frame=("this",),
    ensures=applied(lambda v, i: I(3) if i is None else I(EMACS[i])))
add("apply_constant_fixed_indent", ["int"], frame=("this",),
    ensures=applied(lambda v, i: v.old(0) if i is None or BLOCKS[i] not in (
        "PG_EXECUTION_PART", "PG_SPECIFICATION_PART") else I(0)))
add("set_indent", ["int", "int"], frame=("this",), requires=DOM, ensures=_set)
add("get_indent", ["int"], requires=DOM, ensures=get)
add("operator[]", ["int"], requires=DOM, ensures=get)
add("set_continued_offset", ["int"], frame=("this",), ensures=lambda v: [
    Clause("only the continued offset changes", And(
        Eq(Tab(v.this_new).cont, v.old(0)),
        AllK(first(v), last(v), lambda t: Eq(
            Tab(v.this_new).at(v, t), Tab(v.this).at(v, t)))), P)])
add("continued_offset", [], ensures=lambda v: [Clause(
    "the continued offset", Eq(v.ret, Tab(v.this).cont), P)])
C.append(Contract(CL + "::begin_end_construct", ["int"], src=SRC,
                  ensures=lambda v: [Clause(
                      "constructs whose body sits between begin and end",
                      Iff(v.ret, Or(*[Eq(v.old(0), tag(v, n))
                                      for n in PAIRS])), P)]))
