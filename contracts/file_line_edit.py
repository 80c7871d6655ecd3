"""Contracts for the File_Line members that change a line in place."""
from cxxvc.contract import Contract, Clause
from cxxvc.smt import inset
from cxxvc.strlib import *
from cxxvc.terms import *
from . import file_line as F
from .file_line import Line, FLAGS, BL, SRC, inq, short

FL = "FLPR::File_Line::"
LIM = 1 << 24
C = []


def add(name, params, **k):
    c = Contract(FL + name, params, src=SRC, **k)
    C.append(c)
    return c


def old(v):
    return Line(v, v.this)


def new(v):
    return Line(v, v.this_new)


FIELDS = ["left_txt", "left_space", "main_txt", "right_space", "right_txt"]


def same(a, b, *fields):
    return And(*[Eq(getattr(a, f), getattr(b, f)) for f in fields])


def sameflags(a, b, but=()):
    return And(*[Eq(a.f(k), b.f(k)) for k in FLAGS if k not in but])


def blanks(s, chars=WS):
    return AllIn(s, 0, Len(s), chars)


def sp(n):
    return Repeat(32, n)


def bang_first(s):
    p = FirstIn(s, 0, comp(BL))
    return p, And(Ne(p, NPOS), Eq(Code(s, p), 33))


def comment_a(L):
    """a comment line as the analysers make it"""
    return And(*[Eq(getattr(L, f), "") for f in FIELDS[1:]])


def comment_b(L):
    """a comment line as make_comment_or_blank makes it"""
    return And(blanks(L.left_txt, " "), blanks(L.main_txt, " "),
               Eq(Code(L.right_txt, 0), 33))


def trailing(R, i, chars):
    """from position i on R is blank or starts with one of chars"""
    q = FirstIn(R, i, comp(WS))
    return Or(Eq(q, NPOS), inset(Code(R, q), chars))


def stays(v, P, cond=TRUE):
    """the line is still what the other members require (histories)"""
    return [Clause("the line stays well formed: " + n, Implies(cond, t), P)
            for n, t in wf(new(v))[1:]]


def wf(L):
    fo, fx = L.fortran, L.f("fixed_format")
    r0 = Code(L.right_txt, 0)
    lt = L.left_txt
    return [
        ("length", And(*[Lt(Len(getattr(L, f)), LIM) for f in FIELDS])),
        ("delimiter", inq(L.open_delim)),
        ("space fields", And(blanks(L.left_space), blanks(L.right_space))),
        ("comment", Implies(L.f("comment"), Or(comment_a(L), comment_b(L)))),
        ("continued line", Implies(And(fo, L.f("continued")), Eq(r0, 38))),
        ("free-form trailing text", Implies(
            And(fo, Not(fx)), trailing(L.right_txt, 0, "!&"))),
        ("free-form continuation", Implies(
            And(fo, Not(fx), L.f("continuation")), And(
                Lt(0, Len(lt)), Eq(Code(lt, Sub(Len(lt), 1)), 38),
                AllIn(lt, 0, Sub(Len(lt), 1), BL), Not(L.f("label"))))),
        ("free-form left text", Implies(
            And(fo, Not(fx), Not(L.f("label")), Not(L.f("continuation"))),
            Eq(lt, ""))),
        ("label", Implies(And(fo, L.f("label")), And(
            Lt(0, Len(lt)), Not(L.f("continuation"))))),
        ("control field", Implies(And(fo, fx), Le(Len(lt), 6))),
    ]


# ---------------------------------------------------------------- indentation
def _sls_req(v):
    return wf(old(v)) + [("spaces", And(Le(0, v.old(0)),
                                        Lt(v.old(0), LIM)))]


def _sls_ens(v):
    a, b, n = old(v), new(v), v.old(0)
    P = ("C06",)
    fo, co = a.fortran, a.f("comment")
    free = Not(a.f("fixed_format"))
    p, bang = bang_first(a.left_txt)
    k = Sub(Sub(Len(a.left_txt), p), Sub(Len(b.left_txt), n))
    shift = Sub(Add(Len(b.left_txt), Len(b.left_space)),
                Add(Len(a.left_txt), Len(a.left_space)))
    rs = Len(a.right_space)
    hasc = Ne(FirstIn(a.right_txt, 0, "!"), NPOS)
    plain = And(fo, Eq(a.left_txt, ""))
    last = Sub(Len(b.left_txt), 1)
    return [
        Clause("classification, line number and context are kept",
               And(sameflags(a, b), Eq(a.linenum, b.linenum),
                   Eq(a.open_delim, b.open_delim)), P),
        Clause("body and trailing text are kept",
               same(a, b, "main_txt", "right_txt"), P),
        Clause("the space fields hold only whitespace",
               And(blanks(b.left_space), blanks(b.right_space)), P),
        Clause("the left text changes only in leading blanks",
               Implies(fo, Or(Eq(a.left_txt, b.left_txt), And(
                   free, a.f("continuation"), Lt(0, Len(b.left_txt)),
                   Eq(Code(b.left_txt, last), 38),
                   AllIn(b.left_txt, 0, last, BL)))), P),
        Clause("a comment keeps its text and starts at the column asked for",
               Implies(And(co, comment_a(a), bang), And(
                   comment_a(b), Le(0, k),
                   AllIn(a.left_txt, Add(p, 1), Add(p, 1, k), " \t"),
                   Ite(Eq(p, n), Eq(b.left_txt, a.left_txt),
                       Eq(b.left_txt, Concat(sp(n), "!", From(
                           a.left_txt, Add(p, 1, k))))))), P),
        Clause("other lines are left alone", Implies(
            Not(Or(fo, And(co, comment_a(a), bang))),
            And(same(a, b, *FIELDS), Not(v.ret))), P),
        Clause("an unlabelled body starts at the column asked for",
               Implies(plain, Eq(Len(b.left_space), n)), P),
        Clause("a labelled body starts at the column asked for, or one blank "
               "after the label", Implies(
                   And(fo, a.f("label")), Eq(Len(b.left_space), Ite(
                       Lt(Len(a.left_txt), n), Sub(n, Len(a.left_txt)), 1))),
               P),
        Clause("a trailing comment keeps its column as far as possible",
               Implies(fo, Eq(Len(b.right_space), Ite(
                   And(Ne(a.right_txt, ""), hasc), Ite(
                       Lt(shift, 0), Sub(rs, shift), Ite(
                           Eq(shift, 0), rs,
                           Max(Ite(Eq(rs, 0), I(0), I(1)),
                               Sub(rs, shift)))), rs))), P),
        Clause("the result says whether the line changed",
               Eq(v.ret, Not(same(a, b, *FIELDS))), P),
    ] + stays(v, P)


add("set_leading_spaces", ["int"], requires=_sls_req, ensures=_sls_ens,
    frame=("this",))


def _gls_ens(v):
    a = old(v)
    P = ("C06",)
    p, bang = bang_first(a.left_txt)
    return [
        Clause("the indentation of a free-form body is its column",
               Implies(And(a.fortran, Not(a.f("fixed_format")),
                           Ne(a.main_txt, "")),
                       Eq(v.ret, Add(Len(a.left_txt), Len(a.left_space)))),
               P),
        Clause("the indentation of a comment is the column of its '!'",
               Implies(a.f("comment"), Implies(
                   And(comment_a(a), bang), Eq(v.ret, p))), P),
        Clause("the indentation of a trailing comment that became a comment "
               "line is the column of its '!'", Implies(
                   And(a.f("comment"), comment_b(a), Ne(a.right_txt, "")),
                   Eq(v.ret, Add(Len(a.left_txt), Len(a.left_space),
                                 Len(a.main_txt), Len(a.right_space)))), P),
        Clause("other lines have no indentation", Implies(
            Not(Or(a.fortran, a.f("comment"))), Eq(v.ret, 0)), P)]


add("get_leading_spaces", [], requires=lambda v: wf(old(v)),
    ensures=_gls_ens)


def established(con):
    """the analysers produce lines the editing members accept"""
    ens = con.ensures

    def more(v):
        L = Line(v, v.ret)
        return ens(v) + [Clause("the line is well formed: " + n, t, ("C06",))
                         for n, t in wf(L)[1:]]
    con.ensures = more


for _c in F.C:
    if "analyze_" in _c.qual:
        established(_c)


# ---------------------------------------------------------------- conversions
P7 = ("C07",)


def _mu_ens(v):
    a, b = old(v), new(v)
    R = a.right_txt
    q = FirstIn(R, Ite(Eq(Code(R, 0), 38), I(1), I(0)), comp(" "))
    gone = Or(Eq(R, ""), Eq(q, NPOS))
    return [
        Clause("only the continued flag is cleared",
               And(Not(b.f("continued")), sameflags(a, b, ("continued",))),
               P7),
        Clause("nothing but the right fields changes",
               And(same(a, b, "left_txt", "left_space", "main_txt"),
                   Eq(a.linenum, b.linenum), Eq(a.open_delim, b.open_delim)),
               P7),
        Clause("the ampersand goes, the comment stays in its column",
               Ite(gone, And(Eq(b.right_txt, ""), Eq(b.right_space, "")),
                   And(Eq(b.right_txt, From(R, q)),
                       Eq(b.right_space, Concat(a.right_space, sp(q))))),
               P7)] + stays(v, P7, Implies(
                   Eq(Code(R, 0), 38), trailing(R, 1, "!")))


add("make_uncontinued", [], requires=lambda v: wf(old(v)), ensures=_mu_ens,
    frame=("this",))


def _mc_ens(v):
    a, b = old(v), new(v)
    R, rs = a.right_txt, a.right_space
    amp = Eq(Code(R, 0), 38)
    return [
        Clause("only the continued flag is set",
               And(b.f("continued"), sameflags(a, b, ("continued",))), P7),
        Clause("nothing but the right fields changes",
               And(same(a, b, "left_txt", "left_space", "main_txt"),
                   Eq(a.linenum, b.linenum), Eq(a.open_delim, b.open_delim)),
               P7),
        Clause("a line that already ends in an ampersand is left alone",
               Implies(amp, same(a, b, "right_space", "right_txt")), P7),
        Clause("the ampersand is added before any comment", Implies(
            Not(amp), Eq(b.right_txt, Ite(Eq(R, ""), S("&"),
                                          Concat("& ", R)))), P7),
        Clause("a blank separates the ampersand from the body", Implies(
            Not(amp), And(blanks(b.right_space), Lt(0, Len(b.right_space)),
                          Le(Len(b.right_space), Max(1, Len(rs))))), P7),
        Clause("a comment keeps its column when there is room", Implies(
            And(Not(amp), Ne(R, ""), Lt(2, Len(rs))),
            Eq(Len(b.right_space), Sub(Len(rs), 2))), P7)] + stays(v, P7)


add("make_continued", [], requires=lambda v: wf(old(v)) + [
    ("a Fortran line", old(v).fortran)],
    ensures=_mc_ens,
    frame=("this",))


def only(b, a, name):
    return And(*[Eq(b.f(k), TRUE if k == name else
                    a.f(k) if k == "fixed_format" else FALSE)
                 for k in FLAGS])


def _mp_ens(v):
    a, b = old(v), new(v)
    return [Clause("a preprocessor line", only(b, a, "preprocessor"), P7),
            Clause("keeps its text", And(
                Eq(b.left_txt, a.text),
                *[Eq(getattr(b, f), "") for f in FIELDS[1:]]), P7),
            Clause("keeps its number", Eq(a.linenum, b.linenum), P7)] + stays(v, P7)


add("make_preprocessor", [], requires=lambda v: wf(old(v)), ensures=_mp_ens,
    frame=("this",))


def _mb_ens(v):
    a, b = old(v), new(v)
    return [Clause("a blank line", only(b, a, "blank"), P7),
            Clause("holds no text", And(
                *[Eq(getattr(b, f), "") for f in FIELDS]), P7),
            Clause("keeps its number", Eq(a.linenum, b.linenum), P7)] + stays(v, P7)


add("make_blank", [], requires=lambda v: wf(old(v)), ensures=_mb_ens, frame=("this",))


def _mcb_ens(v):
    a, b = old(v), new(v)
    R = a.right_txt
    co, bl = a.f("comment"), a.f("blank")
    q = FirstIn(R, 0, "!")
    toc = And(Not(co), Not(bl), Ne(q, NPOS))
    tob = And(Not(co), Or(bl, Eq(q, NPOS)))
    return [
        Clause("a comment line is left alone", Implies(
            co, And(same(a, b, *FIELDS), sameflags(a, b))), P7),
        Clause("a trailing comment becomes the line", Implies(toc, And(
            only(b, a, "comment"), Eq(b.right_txt, From(R, q)),
            blanks(b.left_txt, " "), blanks(b.left_space),
            blanks(b.main_txt, " "), blanks(b.right_space))), P7),
        Clause("the comment stays in its column", Implies(toc, And(
            Implies(Not(a.f("fixed_format")),
                    Eq(Len(b.left_txt), Len(a.left_txt))),
            Implies(a.f("fixed_format"), Eq(Len(b.left_txt), 6)),
            Eq(b.left_space, a.left_space),
            Eq(Len(b.main_txt), Len(a.main_txt)),
            Eq(Len(b.right_space), Add(Len(a.right_space), q)))), P7),
        Clause("without a comment the line becomes blank", Implies(tob, And(
            only(b, a, "blank"),
            *[Eq(getattr(b, f), "") for f in FIELDS])), P7),
        Clause("keeps its number", Eq(a.linenum, b.linenum), P7)] + stays(v, P7)


def _mcb_req(v):
    a = old(v)
    return wf(a) + [
        ("a Fortran, comment or blank line",
         Or(a.fortran, a.f("comment"), a.f("blank"))),
        ("only the continuation precedes the comment", AllIn(
            a.right_txt, 1, FirstIn(a.right_txt, 0, "!"), " "))]


add("make_comment_or_blank", [], requires=_mcb_req, ensures=_mcb_ens,
    frame=("this",))


def _um_ens(v):
    a, b = old(v), new(v)
    m = a.main_txt
    f = FirstIn(m, 0, comp(" "))
    l = LastIn(m, comp(" "))
    has = Ne(f, NPOS)
    return [
        Clause("the body loses only its outer blanks", Implies(has, And(
            Eq(b.main_txt, Slice(m, f, Add(l, 1))),
            Eq(b.left_space, Concat(a.left_space, sp(f))),
            Eq(b.right_space, Concat(a.right_space,
                                     sp(Sub(Len(m), Add(l, 1))))))), P7),
        Clause("nothing else changes", Implies(has, And(
            same(a, b, "left_txt", "right_txt"), sameflags(a, b),
            Eq(a.linenum, b.linenum), Eq(a.open_delim, b.open_delim))), P7)] + stays(v, P7)


add("unspace_main", [], requires=lambda v: wf(old(v)), ensures=_um_ens,
    frame=("this",))


# ---------------------------------------------------------------- labels
def _sl_req(v):
    a = old(v)
    return wf(a) + [
        ("a label value", And(Le(0, v.old(0)), Le(v.old(0), 99999))),
        ("an initial line", And(a.fortran, Not(a.f("continuation")))),
        ("control field", Or(Eq(a.left_txt, ""), a.f("label")))]


def _sl_ens(v):
    a, b, n = old(v), new(v), v.old(0)
    P = ("C08",)
    fx = a.f("fixed_format")
    num = FromInt(n)
    room = And(Not(fx), Lt(Add(Len(num), 1), Add(Len(a.left_txt),
                                                 Len(a.left_space))))
    return [
        Clause("the label field holds exactly the label", Implies(
            Ne(n, 0), Ite(fx, Eq(b.left_txt, Concat(
                num, sp(Sub(6, Len(num))))), Eq(b.left_txt, num))), P),
        Clause("label 0 clears the field", Implies(Eq(n, 0),
                                                   Eq(b.left_txt, "")), P),
        Clause("the label flag says whether there is a label",
               Eq(b.f("label"), Ne(n, 0)), P),
        Clause("no other flag changes", sameflags(a, b, ("label",)), P),
        Clause("the rest of the line is kept", And(
            same(a, b, "main_txt", "right_space", "right_txt"),
            Eq(a.linenum, b.linenum), Eq(a.open_delim, b.open_delim)), P),
        Clause("only blanks separate label and body", And(
            blanks(b.left_space), Implies(And(
                Not(fx), Ne(n, 0), Or(Not(a.f("label")), Ne(a.left_space, "")
                                      )), Lt(0, Len(b.left_space)))), P),
        Clause("the body of a free-form line stays in its column when there "
               "is room", Implies(Or(room, And(Not(fx), Eq(n, 0))), Eq(
                   Add(Len(b.left_txt), Len(b.left_space)),
                   Add(Len(a.left_txt), Len(a.left_space)))), P),
        Clause("the result is false only when there was no label to clear",
               Eq(v.ret, Or(Ne(n, 0), a.f("label"))), P)] + stays(v, P)


add("set_label", ["int"], requires=_sl_req, ensures=_sl_ens, frame=("this",))
