"""Contracts for Line_Accum: offsets of the text given to the scanner <-> line
and column of the file."""
from cxxvc.contract import Contract, Clause
from cxxvc.seq import Vec
from cxxvc.terms import *
from cxxvc.values import Unsupported

SRC = "Line_Accum.cc"
CL = "FLPR::Line_Accum"
BIG = 1 << 29
P = ("C09",)
C = []


class Acc:
    """a Line_Accum value: accumulated text, and offset/line/column by line"""

    def __init__(self, rec):
        f = rec._v.f
        for k in ("accum_", "lli_to_accum_offset_", "lli_to_file_line_num_",
                  "lli_to_file_column_num_"):
            if k not in f:
                raise Unsupported("Line_Accum representation changed")
        self.txt = f["accum_"]
        self.vo = f["lli_to_accum_offset_"]
        self.vl = f["lli_to_file_line_num_"]
        self.vc = f["lli_to_file_column_num_"]
        for v in (self.vo, self.vl, self.vc):
            if not isinstance(v, Vec) or list(v.arrs) != [()]:
                raise Unsupported("Line_Accum representation changed")
        self.n = self.vo.length

    def off(self, k):
        return Sel(self.vo.arrs[()], k)

    def line(self, k):
        return Sel(self.vl.arrs[()], k)

    def col(self, k):
        return Sel(self.vc.arrs[()], k)


def wf(a):
    return [
        ("the three tables have one entry per line",
         And(Eq(a.vl.length, a.n), Eq(a.vc.length, a.n), Lt(a.n, BIG),
             Lt(Len(a.txt), BIG))),
        ("the first line starts at offset 0",
         And(Implies(Lt(0, a.n), Eq(a.off(0), 0)),
             Implies(Eq(a.n, 0), Eq(a.txt, "")))),
        ("offsets ascend and lie in the text",
         And(AllK(0, Sub(a.n, 1), lambda k: Le(a.off(k), a.off(Add(k, 1)))),
             AllK(0, a.n, lambda k: And(Le(0, a.off(k)),
                                        Le(a.off(k), Len(a.txt)))))),
        ("columns are positive",
         AllK(0, a.n, lambda k: And(Lt(0, a.col(k)), Lt(a.col(k), BIG)))),
    ]


def _add_req(v):
    a = Acc(v.this)
    return wf(a) + [
        ("column", And(Lt(0, v.old(2)), Lt(v.old(2), BIG))),
        ("room", And(Lt(Add(Len(a.txt), Len(v.old(3)), 2), BIG),
                     Lt(Add(a.n, 1), BIG)))]


def _add_ens(v):
    a, b = Acc(v.this), Acc(v.this_new)
    sep = And(Lt(0, a.n), Lt(0, v.old(1)))
    start = Add(Len(a.txt), Ite(sep, I(1), I(0)))
    n = a.n
    out = [
        Clause("the new line's text follows, separated by one blank where "
               "there is space between", Eq(b.txt, Concat(
                   a.txt, Ite(sep, S(" "), S("")), v.old(3),
                   Ite(Lt(0, v.old(4)), S(" "), S("")))), P),
        Clause("the new line is recorded where its text starts",
               And(Eq(b.n, Add(n, 1)), Eq(b.off(n), start),
                   Eq(b.line(n), v.old(0)), Eq(b.col(n), v.old(2))), P),
        Clause("earlier lines keep their entries", AllK(0, n, lambda k: And(
            Eq(b.off(k), a.off(k)), Eq(b.line(k), a.line(k)),
            Eq(b.col(k), a.col(k)))), P),
    ]
    return out + [Clause("the tables stay well formed: " + nm, t, P)
                  for nm, t in wf(b)]


def _lc_req(v):
    a = Acc(v.this)
    return wf(a) + [("offset", And(Le(0, v.old(0)), Lt(v.old(0), BIG)))]


def owner(a, k, x):
    """k is the last line that starts at or before offset x"""
    return And(Le(0, k), Lt(k, a.n), Le(a.off(k), x), Implies(
        Lt(Add(k, 1), a.n), Lt(x, a.off(Add(k, 1)))))


def _lc_ens(v):
    a = Acc(v.this)
    x = v.old(0)
    r = v.ret
    full = len(v.f.params) == 5
    out = [Clause("an answer is given exactly when there is a line",
                  Iff(r, Lt(0, a.n)), P)]
    if full:
        k = v.new(3)
        out += [
            Clause("the line found is the last that starts at or before the "
                   "offset", Implies(r, owner(a, k, x)), P),
            Clause("line and column are those of the character",
                   Implies(r, And(Eq(v.new(1), a.line(k)), Eq(
                       v.new(2), Add(a.col(k), Sub(x, a.off(k)))))), P),
            Clause("position within the line's text", Implies(r, Eq(
                v.new(4), Sub(x, a.off(k)))), P)]
    else:
        out += [Clause(
            "line and column are those of the character, in the last line "
            "that starts at or before the offset", Implies(r, ExK(
                0, a.n, lambda k: And(owner(a, k, x), Eq(
                    v.new(1), a.line(k)), Eq(v.new(2), Add(
                        a.col(k), Sub(x, a.off(k))))))), P)]
    for i in range(1, len(v.f.params)):
        out.append(Clause("outputs are left alone without an answer", Implies(
            Not(r), Eq(v.new(i), v.old(i))), P))
    return out


def add(name, params, **k):
    C.append(Contract(CL + "::" + name, params, src=SRC, **k))


add("add_line", ["int", "int", "int", "string", "int"], frame=("this",),
    requires=_add_req, ensures=_add_ens)
add("linecolno", ["int"] * 3, frame=(1, 2), requires=_lc_req, ensures=_lc_ens)
add("linecolno", ["int"] * 5, frame=(1, 2, 3, 4), requires=_lc_req,
    ensures=_lc_ens)
add("accum", [], requires=lambda v: [], ensures=lambda v: [Clause(
    "the accumulated text", Eq(v.ret, Acc(v.this).txt), P)])
