"""Spec-level string functions shared by the library model and the contracts."""
from .terms import *

ALLCH = "".join(chr(i) for i in range(256))
WS = " \t\n\v\f\r"
DIGITS = "0123456789"
UPPER = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOWER = UPPER.lower()
ALPHA = UPPER + LOWER


def comp(chars):
    return "".join(c for c in ALLCH if c not in chars)


def _hex(chars):
    return chars.encode("latin-1").hex() if len(chars) < 40 else \
        "n" + comp(chars).encode("latin-1").hex()


def FirstIn(s, pos, chars):
    """least k >= pos, k < |s| with s[k] in chars; npos if there is none"""
    chars = "".join(sorted(set(chars)))
    nm = "first_" + _hex(chars)
    if nm not in Fn.table:
        out = comp(chars)

        def facts(t, s, p):
            from .smt import inset
            r = [Or(And(Eq(t, NPOS), AllIn(s, p, Len(s), out)),
                    And(Le(p, t), Lt(t, Len(s)), AllIn(s, p, t, out),
                        inset(Code(s, t), chars)))]
            if s.op == "substr":
                # the same search in the text s was cut from
                b, i, n = s.args
                u = FirstIn(b, Add(i, p), chars)
                r.append(Implies(
                    And(Le(0, p), Le(p, Len(s)), Le(0, i), Le(i, Len(b))),
                    Eq(t, Ite(Or(Eq(u, NPOS), Le(Add(i, Len(s)), u)), NPOS,
                              Sub(u, i)))))
            return r

        def conc(s, p):
            for k in range(p, len(s)):
                if s[k] in chars:
                    return k
            return cv(NPOS)
        fn = Fn(nm, ("Str", "Int"), "Int", conc=conc, facts=facts, depth=3)
        fn.pair = _related
    return Fn.table[nm](s, pos)


def _related(p, q):
    """positions found in two texts, one cut from or updated from the other:
    bring the characters of each at the other's position into the query"""
    s, s2 = p.args[1], q.args[1]
    if s == s2:
        return
    for a, x, b in ((s, p, s2), (s2, q, s)):
        if a.op == "upd" and a.args[0] == b:
            yield T("<=", (I(0), Code(b, x)), "Bool")
            other = q if x is p else p
            yield T("<=", (I(0), Code(a, other)), "Bool")
        elif a.op == "substr" and a.args[0] == b:
            other = q if x is p else p
            yield T("<=", (I(0), Code(b, Add(a.args[1], x))), "Bool")
            yield T("<=", (I(0), Code(a, Sub(other, a.args[1]))), "Bool")


def LastIn(s, chars):
    """greatest k < |s| with s[k] in chars; npos if there is none"""
    chars = "".join(sorted(set(chars)))
    nm = "last_" + _hex(chars)
    if nm not in Fn.table:
        out = comp(chars)

        def facts(t, s):
            from .smt import inset
            return [Or(And(Eq(t, NPOS), AllIn(s, I(0), Len(s), out)),
                       And(Le(0, t), Lt(t, Len(s)),
                           AllIn(s, Add(t, 1), Len(s), out),
                           inset(Code(s, t), chars)))]

        def conc(s):
            for k in reversed(range(len(s))):
                if s[k] in chars:
                    return k
            return cv(NPOS)
        fn = Fn(nm, ("Str",), "Int", conc=conc, facts=facts, depth=3)
        fn.pair = _related
    return Fn.table[nm](s)
