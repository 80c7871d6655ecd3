"""Contracts for File_Info: the source form chosen from a file name."""
from cxxvc.contract import Contract, Clause
from cxxvc.strlib import *
from cxxvc.terms import *

SRC = "File_Info.cc"
P = ("C25",)
C = []


def kind(v, name):
    return I(v.ex.enum_value("File_Type::" + name))


def form(v, s):
    """source form of a file called s"""
    dot = LastIn(s, ".")
    ext = Slice(s, Add(dot, 1), Len(s))
    has = Ne(dot, NPOS)
    return Ite(And(has, Or(Eq(ext, S("f")), Eq(ext, S("F")))),
               kind(v, "FIXEDFMT"),
               Ite(And(has, Or(Eq(ext, S("f90")), Eq(ext, S("F90")))),
                   kind(v, "FREEFMT"), kind(v, "UNKNOWN")))


SHORT = lambda v: [("length", Lt(Len(v.old(0)), 1 << 28))]
C.append(Contract("FLPR::file_type_from_extension", ["string"], src=SRC,
                  requires=SHORT, ensures=lambda v: [Clause(
                      "f and F are fixed form, f90 and F90 free form, "
                      "anything else unknown",
                      Eq(v.ret, form(v, v.old(0))), P)]))


def _ctor(v):
    a = v.this_new
    return [Clause("the file name is kept", Eq(a.filename, v.old(0)), P),
            Clause("a form that was asked for is kept, otherwise the name "
                   "decides", Eq(a.file_type, Ite(
                       Eq(v.old(1), kind(v, "UNKNOWN")), form(v, v.old(0)),
                       v.old(1))), P),
            Clause("no column limit", Eq(a.last_fixed_column, 0), P)]


C.append(Contract("FLPR::File_Info::File_Info", ["string", "FLPR::File_Type"],
                  src=SRC, requires=SHORT, frame=("this",), ensures=_ctor))
