"""Contracts for src/flpr/utils.hh/.cc: text utilities."""
from cxxvc.contract import Contract, Clause
from cxxvc.smt import inset
from cxxvc.strlib import *
from cxxvc.terms import *

SRC = "utils.cc"
C = []


def add(*a, **k):
    c = Contract(*a, src=SRC, **k)
    C.append(c)
    return c


for nm, kind in (("tolower", "lower"), ("toupper", "upper")):
    add("FLPR::" + nm, ["string"], frame=(0,),
        requires=lambda v: [("length", Lt(Len(v.old(0)), 1 << 28))],
        ensures=lambda v, kind=kind: [Clause(
            "every letter is mapped to %s case, nothing else changes" % kind,
            Eq(v.new(0), MapCase(kind, v.old(0))), ("C23", "C03", "C05"))])


# ------------------------------------------------------------------ trimming
P23 = ("C23",)
SHORT = lambda v: [("length", Lt(Len(v.old(0)), 1 << 28))]


def last_not(s, chars):
    return LastIn(s, comp(chars))


def upto(s, k):
    """s up to and including position k, nothing when k is npos"""
    return Ite(Eq(k, NPOS), S(""), Slice(s, 0, Add(k, 1)))


add("FLPR::trim_back_copy", ["string"], requires=SHORT,
    ensures=lambda v: [Clause(
        "the text up to its last character that is not a blank or tab",
        Eq(v.ret, upto(v.old(0), last_not(v.old(0), " \t"))), P23)])
add("FLPR::trim_back", ["string"], requires=SHORT, frame=(0,),
    ensures=lambda v: [Clause(
        "the text up to its last character that is not a blank or tab",
        Eq(v.new(0), upto(v.old(0), last_not(v.old(0), " \t"))), P23)])
add("FLPR::last_non_blank_char", ["string"], requires=SHORT,
    ensures=lambda v: [Clause(
        "the last character that is not a blank or tab, NUL if there is none",
        Eq(v.ret, Ite(Eq(last_not(v.old(0), " \t"), NPOS), I(0),
                      Code(v.old(0), last_not(v.old(0), " \t")))), P23)])


def _trim(v):
    s, r = v.old(0), v.ret
    a, b = FirstIn(s, 0, comp(WS)), last_not(s, WS)
    return [Clause("the text from its first to its last character that is "
                   "not white space", Eq(r, Ite(Eq(a, NPOS), S(""), Slice(
                       s, a, Add(b, 1)))), P23)]


add("FLPR::trim", ["string"], requires=SHORT, ensures=_trim)
