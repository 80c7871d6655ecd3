"""Contracts for src/flpr/File_Line.cc/.hh: one physical line <-> its fields."""
from cxxvc.contract import Contract, Clause, RecView
from cxxvc.smt import inset
from cxxvc.strlib import *
from cxxvc.terms import *
from cxxvc.values import Bits, Unsupported

SRC = "File_Line.cc"
FL = "FLPR::File_Line"
BL = " \t\r"
QUOTES = (0, 34, 39)
MAXL = 1 << 28

FLAGS = ["blank", "comment", "continued", "continuation", "label",
         "preprocessor", "include", "flpr_pp", "flpr_lit", "fixed_format"]


# ------------------------------------------------------------ spec functions
def _step(c, ch):
    """character context after reading ch"""
    return Ite(Eq(c, 0), Ite(Or(Eq(ch, 39), Eq(ch, 34)), ch, I(0)),
               Ite(Eq(ch, c), I(0), c))


def _ctx_def(s, a, i, d):
    return Ite(Le(i, a), d, _step(CTX(s, a, Sub(i, 1), d),
                                  Code(s, Sub(i, 1))))


def _ctx_conc(s, a, i, d):
    c = d
    for k in range(a, i):
        x = ord(s[k]) if k < len(s) else 0
        if c == 0:
            c = x if x in (34, 39) else 0
        elif x == c:
            c = 0
    return c


def _ctx_facts(t, s, a, i, d):
    return [Implies(Or(Eq(d, 0), Eq(d, 34), Eq(d, 39)),
                    Or(Eq(t, 0), Eq(t, 34), Eq(t, 39)))]


# CTX(s, a, i, d): open character delimiter (0 = none) before position i, when
# the context before position a is d.
CTX = Fn("ctx", ("Str", "Int", "Int", "Int"), "Int", defn=_ctx_def,
         conc=_ctx_conc, facts=_ctx_facts, depth=2)


def stop_free(s, a, i, d):
    """position i ends the body of a free-form line"""
    c = CTX(s, a, i, d)
    ch = Code(s, i)
    return Or(And(Eq(c, 0), Or(Eq(ch, 33), Eq(ch, 38))),
              And(Ne(c, 0), Eq(ch, 38), AllIn(s, Add(i, 1), Len(s), WS)))


def stop_fixed(s, a, i, d):
    return And(Eq(CTX(s, a, i, d), 0), Eq(Code(s, i), 33))


def _mk_nostop(name, stop):
    def defn(s, a, i, d):
        k = Sub(i, 1)
        return Or(Le(i, a), And(fn(s, a, k, d), Not(stop(s, a, k, d))))

    def pair(p, q):
        """prefix-closed: nostop up to i gives nostop up to j <= i, and no
        stop at any position before i"""
        _, s, a, i, d = p.args
        _, s2, a2, j, d2 = q.args
        if s == s2 and a == a2 and d == d2:
            yield Implies(And(p, Le(j, i)), q)
            yield Implies(And(p, Lt(j, i), Le(a, j)), Not(stop(s, a, j, d)))
    def facts(t, s, a, i, d):
        return [Implies(And(t, Lt(a, i)), Not(stop(s, a, a, d)))]
    fn = Fn(name, ("Str", "Int", "Int", "Int"), "Bool", defn=defn, depth=2,
            facts=facts)
    fn.pair = pair
    return fn


# NOSTOP(s, a, i, d): no position in [a, i) ends the body
NOSTOP_FREE = _mk_nostop("nostop_free", stop_free)
NOSTOP_FIXED = _mk_nostop("nostop_fixed", stop_fixed)


def pool(ctx):
    """invariant templates: by the types of the variables, never by name"""
    ints, chars, bools = ctx.ints(), ctx.chars(), ctx.bools()
    strs = [s for s in ctx.stable("Str") if s.op != "str"][:8]
    cs = [c for c in ctx.stable("Int")
          if c.op == "var" and is_char(ctx, c)][:4]
    for old, h in chars:
        yield Or(Eq(h, 0), Eq(h, 34), Eq(h, 39))
        for oi, i in ints:
            for s in strs:
                yield Eq(h, CTX(s, oi, i, old))
                yield NOSTOP_FREE(s, oi, i, old)
                yield NOSTOP_FIXED(s, oi, i, old)
                yield Implies(Eq(h, 0), NOSTOP_FREE(s, oi, i, old))
    for ob, b in bools:
        for oi, i in ints:
            for s in strs:
                yield Eq(b, And(ob, AllIn(s, oi, i, WS)))
    for os_, h in ctx.strs():
        for oi, i in ints:
            for k in ("lower", "upper"):
                yield Mapped(k, h, os_, oi, i)
            yield SameFrom(h, os_, i)
            for ch in (32,):
                yield AllIn(h, oi, i, chr(ch))
                yield SameTo(h, os_, oi)


def is_char(ctx, c):
    return Le(c, 255) in ctx.entry.pc


def Mapped(kind, h, o, a, i):
    """h[k] is the case-mapped o[k] for a <= k < i"""
    return _agree("mapped_" + kind, lambda c: CaseC(kind, c))(h, o, a, i)


def SameFrom(h, o, i):
    return _agree("same", lambda c: c)(h, o, i, Len(o))


def SameTo(h, o, i):
    return _agree("same", lambda c: c)(h, o, I(0), i)


def _agree(name, f):
    """pointwise relation on a range of positions, as a bounded universal"""
    if name in Fn.table:
        return Fn.table[name]

    def facts(t, h, o, a, b):
        from cxxvc.smt import Wit
        w = Wit("agree_" + name, h, o, a, b)
        return [Or(t, And(Le(a, w), Lt(w, b),
                          Ne(Code(h, w), f(Code(o, w))))),
                Implies(Le(b, a), t)]

    fn = Fn(name, ("Str", "Str", "Int", "Int"), "Bool", facts=facts, depth=3)

    def inst(t, i):
        _, h, o, a, b = t.args
        return Implies(And(t, Le(a, i), Lt(i, b)),
                       Eq(Code(h, i), f(Code(o, i))))
    fn.inst = inst          # instantiated at index terms of h and o
    return fn


# ------------------------------------------------------------ record views
class Line:
    """a File_Line value"""

    def __init__(self, v, rec):
        self.v, self.r = v, rec
        ex = v.ex
        bits = [x for x in rec._v.f.values() if isinstance(x, Bits)]
        if len(bits) != 1:
            raise Unsupported("File_Line representation changed")
        self.bits = bits[0]
        self.idx = flag_index(ex)
        for k in ("linenum", "left_txt", "left_space", "main_txt",
                  "right_space", "right_txt", "open_delim"):
            setattr(self, k, getattr(rec, k))

    def f(self, name):
        return self.bits.b[self.idx[name]]

    @property
    def text(self):
        return Concat(self.left_txt, self.left_space, self.main_txt,
                      self.right_space, self.right_txt)

    @property
    def trivial(self):
        return Or(self.f("comment"), self.f("blank"))

    @property
    def fortran(self):
        return And(*[Not(self.f(k)) for k in (
            "comment", "blank", "preprocessor", "flpr_pp", "flpr_lit",
            "include")])

    def strs(self):
        return [self.left_txt, self.left_space, self.main_txt,
                self.right_space, self.right_txt]

    def flags(self, **kw):
        """exactly these flags"""
        return And(*[Eq(self.f(k), kw.get(k, FALSE)) for k in FLAGS])


def flag_index(ex):
    c = getattr(ex.tu, "_flagidx", None)
    if c is None:
        c = {}
        for i, n in ex.tu.by_id.items():
            if n.get("kind") == "EnumConstantDecl" and i in ex.tu.enums:
                c.setdefault(n["name"], ex.tu.enums[i])
        ex.tu._flagidx = c
    return c


MAXH = 1 << 31          # bound for the text helpers


def short(*ss, lim=MAXL):
    return And(*[Lt(Len(s), lim) for s in ss])


def inq(c):
    return Or(*[Eq(c, q) for q in QUOTES])


def isdig(c):
    return And(Le(48, c), Le(c, 57))


# ------------------------------------------------------- helper predicates
def is_directive(s, p):
    return And(Lt(Add(p, 5), Len(s)),
               *[Eq(Code(s, Add(p, k + 1)), ord(ch))
                 for k, ch in enumerate("#flpr")])


def is_literal(s, p):
    return And(is_directive(s, p), Lt(Add(p, 13), Len(s)),
               *[Eq(Code(s, Add(p, 9 + k)), ord(ch))
                 for k, ch in enumerate(" literal")])


def is_include(s, p):
    """case-insensitive INCLUDE, blanks, a quote"""
    q = FirstIn(s, Add(p, 7), comp(" "))
    return And(*[inset(Code(s, Add(p, k)), ch + ch.upper())
                 for k, ch in enumerate("include")],
               Ne(q, NPOS), Or(Eq(Code(s, q), 34), Eq(Code(s, q), 39)))


C = []


def add(*a, **k):
    c = Contract(*a, src=SRC, **k)
    C.append(c)
    return c


# ------------------------------------------------------------ text helpers
add("is_include_line", ["string", "unsigned long"],
    requires=lambda v: [("length", short(v.old(0), lim=MAXH)),
                        ("position", Lt(v.old(1), MAXH))],
    ensures=lambda v: [Clause("include-line predicate",
                              Eq(v.ret, is_include(v.old(0), v.old(1))),
                              ("C03", "C05"))])
add("is_flpr_directive", ["string", "unsigned long"],
    requires=lambda v: [("length", short(v.old(0), lim=MAXH)),
                        ("position", Lt(v.old(1), MAXH))],
    ensures=lambda v: [Clause("directive predicate",
                              Eq(v.ret, is_directive(v.old(0), v.old(1))),
                              ("C03", "C05"))])
add("is_flpr_literal", ["string", "unsigned long"],
    requires=lambda v: [("length", short(v.old(0), lim=MAXH)),
                        ("position", Lt(v.old(1), MAXH))],
    ensures=lambda v: [Clause("literal-directive predicate",
                              Eq(v.ret, is_literal(v.old(0), v.old(1))),
                              ("C03", "C05"))])


def _ftf_throws(v):
    s, a, d = v.old(0), v.old(1), v.old(2)
    N = Len(s)
    return And(NOSTOP_FREE(s, a, N, d), Ne(CTX(s, a, N, d), 0))


def _ftf_ens(v):
    s, a, d = v.old(0), v.old(1), v.old(2)
    od, r, N = v.new(3), v.ret, Len(s)
    found = Ne(r, NPOS)
    return [
        Clause("split position in range",
               Implies(found, And(Le(a, r), Lt(r, N))), ("C01", "C02")),
        Clause("nothing before the split position ends the body",
               Ite(found, NOSTOP_FREE(s, a, r, d), NOSTOP_FREE(s, a, N, d)),
               ("C02",)),
        Clause("the split position ends the body",
               Implies(found, stop_free(s, a, r, d)), ("C02",)),
        Clause("open delimiter is the character context at the split",
               Ite(found, Eq(od, CTX(s, a, r, d)),
                   And(Eq(od, 0), Eq(CTX(s, a, N, d), 0))), ("C02",)),
    ]


add("find_trailing_free", ["string", "unsigned long", "char", "char"],
    requires=lambda v: [("length", short(v.old(0), lim=MAXH)),
                        ("start within the line", Le(v.old(1),
                                                     Len(v.old(0)))),
                        ("delimiter", inq(v.old(2)))],
    ensures=_ftf_ens, throws=_ftf_throws, frame=(3,))


# ------------------------------------------------------------ free form
class Free:
    """what a free-form line is, as a function of its inputs"""

    def __init__(self, s, pd, pc, lit):
        self.s, self.pd, self.pc, self.lit = s, pd, pc, lit
        N = Len(s)
        ri = FirstIn(s, 0, comp(BL))
        c = Code(s, ri)
        self.ri = ri
        has = Ne(ri, NPOS)
        bang = And(has, Eq(c, 33))
        kinds = [("literal", lit),
                 ("blank", Not(has)),
                 ("preprocessor", And(Eq(ri, 0), Eq(c, 35))),
                 ("include", is_include(s, ri)),
                 ("literal_begin", And(bang, is_literal(s, ri))),
                 ("directive", And(bang, is_directive(s, ri))),
                 ("comment", bang)]
        self.kind = {}
        none = TRUE
        for k, cond in kinds:
            self.kind[k] = And(none, cond)
            none = And(none, Not(cond))
        self.fortran = none
        self.lab = And(Not(pc), isdig(c))
        self.amp = And(Not(self.lab), Eq(c, 38))
        nd = FirstIn(s, ri, comp(DIGITS))
        lim = Min(N, Add(ri, 6))
        self.lab_end = Ite(Le(lim, nd), lim, nd)
        nb = FirstIn(s, self.lab_end, comp(WS))
        self.left_len = Ite(self.lab, self.lab_end,
                            Ite(self.amp, Add(ri, 1), I(0)))
        self.body = Ite(self.lab, Ite(Eq(nb, NPOS), N, nb),
                        Ite(self.amp, Add(ri, 1), ri))
        self.lit_new = Ite(lit, Not(And(bang, is_literal(s, ri))),
                           self.kind["literal_begin"])


def _free(v):
    return Free(v.old(1), v.old(2), v.old(3), v.old(4))


def _af_throws(v):
    F = _free(v)
    s, N = F.s, Len(F.s)
    return And(F.fortran, NOSTOP_FREE(s, F.body, N, F.pd),
               Ne(CTX(s, F.body, N, F.pd), 0))


def _af_ens(v):
    F = _free(v)
    s, pd, N = F.s, F.pd, Len(F.s)
    L = Line(v, v.ret)
    whole = And(Eq(L.left_txt, s), *[Eq(x, "") for x in (
        L.left_space, L.main_txt, L.right_space, L.right_txt)])
    m, t = F.body, Sub(N, Len(L.right_txt))
    has = Lt(0, Len(L.right_txt))
    fo = F.fortran
    k = F.kind
    out = [
        Clause("the fields concatenated are the line", Eq(L.text, s),
               ("C01",)),
        Clause("the line number is kept", Eq(L.linenum, v.old(0)), ("C01",)),
        Clause("the space fields hold only whitespace",
               And(AllIn(L.left_space, 0, Len(L.left_space), WS),
                   AllIn(L.right_space, 0, Len(L.right_space), WS)),
               ("C01",)),
        Clause("a line that is not Fortran text is kept whole",
               Implies(Not(fo), And(whole, Eq(L.open_delim, 0))),
               ("C01", "C03")),
        Clause("no earlier position ends the body",
               Implies(fo, NOSTOP_FREE(s, m, t, pd)), ("C02",)),
        Clause("the trailing field starts where the body ends",
               Implies(And(fo, has), And(Le(m, t), stop_free(s, m, t, pd))),
               ("C02",)),
        Clause("the open delimiter is the character context at the end of "
               "the body", Implies(fo, Eq(L.open_delim, CTX(s, m, t, pd))),
               ("C02",)),
        Clause("continued exactly when the trailing field is a continuation",
               Implies(fo, Eq(L.f("continued"),
                              And(has, Eq(Code(s, t), 38)))), ("C02", "C03")),
        Clause("statement label / leading continuation field",
               Implies(fo, And(Eq(Len(L.left_txt), F.left_len),
                               Eq(Add(Len(L.left_txt), Len(L.left_space)),
                                  m))), ("C03",)),
        Clause("label and continuation flags",
               Implies(fo, And(Eq(L.f("label"), F.lab),
                               Eq(L.f("continuation"), F.amp))), ("C03",)),
        Clause("the body carries no trailing blanks outside a character "
               "context",
               Implies(fo, Ite(
                   Eq(L.open_delim, 0),
                   Or(Eq(Len(L.main_txt), 0),
                      Not(inset(Code(L.main_txt, Sub(Len(L.main_txt), 1)),
                                " \t"))),
                   Eq(Len(L.right_space), 0))), ("C03",)),
        Clause("classification",
               And(Eq(L.f("blank"), k["blank"]),
                   Eq(L.f("preprocessor"), k["preprocessor"]),
                   Eq(L.f("include"), k["include"]),
                   Eq(L.f("comment"), k["comment"]),
                   Eq(L.f("flpr_pp"), k["directive"]),
                   Eq(L.f("flpr_lit"), Or(k["literal"],
                                          k["literal_begin"])),
                   Not(L.f("fixed_format"))), ("C03",)),
        Clause("flags of lines that are not Fortran text",
               Implies(Not(fo), And(
                   Not(L.f("label")), Not(L.f("continuation")),
                   Eq(L.f("continued"), And(k["comment"], F.pc)))), ("C03",)),
        Clause("literal blocks open and close at literal directives",
               Eq(v.new(4), F.lit_new), ("C03",)),
    ]
    return out


_af = add("FLPR::File_Line::analyze_free",
          ["int", "string", "char", "bool", "bool"],
          requires=lambda v: [("length", short(v.old(1))),
                              ("delimiter", inq(v.old(2)))],
          ensures=_af_ens, throws=_af_throws, frame=(4,))
_af.throw_props = ("C02",)


# ------------------------------------------------------------ fixed form
def last_pos(s, lc):
    """positions from here on are past the last column"""
    return Ite(And(Lt(0, lc), Lt(lc, Len(s))), lc, Len(s))


def _ftx_ens(v):
    s, a, lc, d = v.old(0), v.old(1), v.old(2), v.old(3)
    od, r, N = v.new(4), v.ret, Len(s)
    e = last_pos(s, lc)
    found = And(Ne(r, NPOS), Lt(r, e))
    return [
        Clause("split position in range",
               Or(Eq(r, NPOS), And(Le(a, r), Lt(r, N))), ("C04", "C05")),
        Clause("without a comment the body ends at the last column",
               Implies(Not(found), Eq(r, Ite(Lt(e, N), e, NPOS))),
               ("C05",)),
        Clause("no earlier position starts a comment",
               NOSTOP_FIXED(s, a, Ite(found, r, e), d), ("C05",)),
        Clause("the split position starts a comment",
               Implies(found, stop_fixed(s, a, r, d)), ("C05",)),
        Clause("open delimiter is the character context at the split",
               Eq(od, Ite(found, I(0), CTX(s, a, e, d))), ("C05",)),
    ]


add("find_trailing_fixed", ["string", "unsigned long", "int", "char", "char"],
    requires=lambda v: [("length", short(v.old(0), lim=MAXH)),
                        ("start before the last column",
                         Le(v.old(1), last_pos(v.old(0), v.old(2)))),
                        ("delimiter", inq(v.old(3)))],
    ensures=_ftx_ens, frame=(4,))


class Fixed:
    """what a fixed-form line is, as a function of its inputs"""

    def __init__(self, raw, pd, lc):
        self.raw, self.pd, self.lc = raw, pd, lc
        tb = FirstIn(raw, 0, "\t")
        te0 = FirstIn(raw, tb, comp("\t"))
        te = Ite(Eq(te0, NPOS), Len(raw), te0)
        self.tabs = Lt(tb, 6)
        self.tb, self.te = tb, te
        nt = Sub(te, tb)
        # the control-column tab run, expanded
        self.E = Ite(self.tabs, Concat(
            Substr(raw, 0, tb), Repeat(32, Mul(6, nt)), From(raw, te)), raw)

    def on(self, s):
        """classification of the expanded text s"""
        pd, lc = self.pd, self.lc
        N = Len(s)
        self.s, self.N = s, N
        ri = FirstIn(s, 0, comp(BL))
        c = Code(s, ri)
        self.ri = ri
        n5 = Ne(ri, 5)
        cm = And(n5, Or(Eq(c, 33), And(Eq(ri, 0), inset(c, "*Cc"))))
        kinds = [("blank", Eq(ri, NPOS)),
                 ("beyond", And(Lt(0, lc), Le(lc, ri))),
                 ("preprocessor", And(Eq(ri, 0), Eq(c, 35))),
                 ("include", And(n5, is_include(s, ri))),
                 ("literal", And(cm, is_literal(s, ri))),
                 ("directive", And(cm, is_directive(s, ri))),
                 ("comment", cm)]
        self.kind = {}
        none = TRUE
        for k, cond in kinds:
            self.kind[k] = And(none, cond)
            none = And(none, Not(cond))
        self.mark = Eq(ri, 5)
        self.lab = And(Lt(ri, 5), isdig(c))
        nd = FirstIn(s, ri, comp(DIGITS))
        lim = Min(N, I(6))
        lab_end = Ite(Le(lim, nd), lim, nd)
        self.left_len = Ite(self.mark, I(6), Ite(self.lab, lab_end, I(0)))
        has_left = Or(self.mark, self.lab)
        nb = FirstIn(s, self.left_len, comp(WS))
        skip = And(has_left, Eq(pd, 0))
        self.body = Ite(skip, nb, Ite(has_left, self.left_len, ri))
        nobody = And(skip, Or(Eq(nb, NPOS), And(Lt(0, lc), Le(lc, nb))))
        self.kind["nobody"] = And(none, nobody)
        self.fortran = And(none, Not(nobody))
        self.cont = And(self.mark, Ne(Code(s, 5), 48))
        return self


def _fixed(v):
    return Fixed(v.old(1), v.old(2), v.old(3))


def _ax_throws(v):
    F = _fixed(v)
    F.on(v.abs("line", F.E))
    return Or(F.kind["literal"],
              And(F.fortran, Or(Le(last_pos(F.s, F.lc), F.body), And(
                  Eq(F.pd, 0), Eq(Code(F.s, F.body), 33)))))


def _ax_ens(v):
    F = _fixed(v)
    L = Line(v, v.ret)
    F.on(v.abs("line", F.E))
    s, N, pd, lc, k, fo = F.s, F.N, F.pd, F.lc, F.kind, F.fortran
    m = F.body
    t = Add(m, Len(L.main_txt), Len(L.right_space))
    R = From(s, t)
    e = last_pos(s, lc)
    trunc = And(Lt(0, lc), Eq(t, lc))
    rb = FirstIn(s, t, comp(BL))
    rt = Ite(And(trunc, Lt(t, N)),
             Ite(Eq(rb, NPOS), S(""),
                 Ite(Or(Eq(Code(s, rb), 38), Eq(Code(s, rb), 33)), R,
                     Concat("! ", R))), R)
    whole = And(*[Eq(x, "") for x in (
        L.left_space, L.main_txt, L.right_space, L.right_txt)])
    bey = k["beyond"]
    return [
        Clause("the line number is kept", Eq(L.linenum, v.old(0)), ("C04",)),
        Clause("a line that is not Fortran text is kept whole",
               Implies(Not(fo), And(whole, Eq(L.open_delim, 0), Or(
                   bey, Eq(L.left_txt, s)))), ("C04",)),
        Clause("text entirely past the last column becomes a comment",
               Implies(bey, Eq(L.left_txt, Ite(
                   Eq(Code(s, F.ri), 33), s,
                   Concat(Substr(s, 0, F.ri), "! ", From(s, F.ri))))),
               ("C04",)),
        Clause("body and right space are the text of the body columns",
               Implies(fo, And(Le(m, t), Le(t, N), Eq(
                   Concat(L.main_txt, L.right_space), Slice(s, m, t)))),
               ("C04",)),
        Clause("trailing text is kept, marked as a comment when it is one "
               "by column only", Implies(fo, Eq(L.right_txt, rt)), ("C04",)),
        Clause("control columns", Implies(fo, And(
            Eq(L.left_txt, Substr(s, 0, F.left_len)),
            AllIn(s, F.left_len, m, WS),
            Eq(L.left_space, Ite(Lt(6, m), Slice(s, I(6), m), S(""))))),
               ("C04", "C05")),
        Clause("the right space holds only blanks",
               AllIn(L.right_space, 0, Len(L.right_space), WS), ("C04",)),
        Clause("the body ends at a comment or at the last column",
               Implies(fo, And(NOSTOP_FIXED(s, m, t, pd), Or(
                   Eq(t, e), And(Lt(t, e), stop_fixed(s, m, t, pd))))),
               ("C05",)),
        Clause("the open delimiter is the character context at the end of "
               "the body", Implies(fo, Eq(L.open_delim, CTX(s, m, t, pd))),
               ("C05",)),
        Clause("classification", And(
            Eq(L.f("blank"), Or(k["blank"], k["nobody"])),
            Eq(L.f("preprocessor"), k["preprocessor"]),
            Eq(L.f("include"), k["include"]),
            Eq(L.f("comment"), Or(bey, k["comment"])),
            Eq(L.f("flpr_pp"), k["directive"]),
            Not(L.f("flpr_lit")), Not(L.f("continued")),
            L.f("fixed_format")), ("C05",)),
        Clause("label and continuation flags", And(
            Eq(L.f("label"), And(Or(fo, k["nobody"]), F.lab)),
            Eq(L.f("continuation"), And(Or(fo, k["nobody"]), F.cont))),
            ("C05",)),
    ]


_ax = add("FLPR::File_Line::analyze_fixed", ["int", "string", "char", "int"],
          requires=lambda v: [("length", short(v.old(1))),
                              ("delimiter", inq(v.old(2))),
                              ("columns", Or(Le(v.old(3), 0),
                                             Le(6, v.old(3))))],
          ensures=_ax_ens, throws=_ax_throws,
          abstract=lambda v: {"line": (
              _fixed(v).E, lambda e: [Lt(Len(e), MAXH)])})
_ax.throw_props = ("C05",)
