"""Term language of the verification-condition generator.

Sorts: 'Int', 'Bool', 'Str' (byte strings, SMT-LIB Strings restricted to codes
0..255) and declared uninterpreted sorts.  Smart constructors fold constants, so
executing the translated code on constant inputs is a concrete interpreter (used
for validating the translation against the compiled code).
"""
import itertools


class T:
    """interned (hash-consed): equality is identity"""
    __slots__ = ("op", "args", "sort")
    _tab = {}

    def __new__(cls, op, args, sort):
        k = (op, args, sort)
        r = T._tab.get(k)
        if r is None:
            r = object.__new__(cls)
            r.op, r.args, r.sort = op, args, sort
            T._tab[k] = r
        return r

    def __repr__(self):
        return show(self)


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if t.op in ("int", "bool", "str", "var"):
        return str(t.args[0])
    if d > 12:
        return "..."
    return "(" + t.op + " " + " ".join(show(a, d + 1) for a in t.args) + ")"


_fresh = itertools.count()


_ints = {}


def I(n):
    r = _ints.get(n)
    if r is None:
        r = _ints[n] = T("int", (int(n),), "Int")
    return r


def B(b):
    return T("bool", (bool(b),), "Bool")


def S(s):
    if isinstance(s, bytes):
        s = s.decode("latin-1")
    return T("str", (s,), "Str")


TRUE, FALSE = B(True), B(False)


def Var(name, sort):
    return T("var", (name,), sort)


def fresh(hint, sort):
    hint = "".join(ch if (ch.isalnum() or ch == "_") else "_" for ch in hint)
    return Var("%s!%d" % (hint, next(_fresh)), sort)


def coerce(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return B(x)
    if isinstance(x, int):
        return I(x)
    if isinstance(x, (str, bytes)):
        return S(x)
    raise TypeError("cannot coerce %r" % (x,))


def isc(t):
    return t.op in ("int", "bool", "str")


def cv(t):
    return t.args[0]


# ---------------------------------------------------------------- booleans
def Not(a):
    a = coerce(a)
    if a.op == "bool":
        return B(not cv(a))
    if a.op == "not":
        return a.args[0]
    if a.op == "<":
        return Le(a.args[1], a.args[0])
    if a.op == "<=":
        return Lt(a.args[1], a.args[0])
    return T("not", (a,), "Bool")


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        x = coerce(x)
        if x.op == "bool":
            if not cv(x):
                return FALSE
            continue
        if x.op == "and":
            for y in x.args:
                if y not in out:
                    out.append(y)
            continue
        if x not in out:
            out.append(x)
    for x in out:
        if Not(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", tuple(out), "Bool")


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        x = coerce(x)
        if x.op == "bool":
            if cv(x):
                return TRUE
            continue
        if x.op == "or":
            for y in x.args:
                if y not in out:
                    out.append(y)
            continue
        if x not in out:
            out.append(x)
    for x in out:
        if Not(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return T("or", tuple(out), "Bool")


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return Eq(a, b)


def Ite(c, a, b):
    c, a, b = coerce(c), coerce(a), coerce(b)
    if c.op == "bool":
        return a if cv(c) else b
    if a == b:
        return a
    if a.sort == "Bool":
        if a.op == "bool":
            return Or(c, b) if cv(a) else And(Not(c), b)
        if b.op == "bool":
            return Or(Not(c), a) if cv(b) else And(c, a)
    return T("ite", (c, a, b), a.sort)


_eqm = {}


def Eq(a, b):
    k = (a, b, type(a), type(b))
    r = _eqm.get(k)
    if r is None:
        r = _eqm[k] = _Eq(a, b)
    return r


def _Eq(a, b):
    a, b = coerce(a), coerce(b)
    assert a.sort == b.sort, "Eq sorts %s %s: %s %s" % (a.sort, b.sort, a, b)
    if a == b:
        return TRUE
    if isc(a) and isc(b):
        return B(cv(a) == cv(b))
    if isc(a):
        a, b = b, a
    if a.sort == "Bool" and b.op == "bool":
        return a if cv(b) else Not(a)
    if a.op == "sx" and b.op == "int":
        k = cv(b)
        return Eq(a.args[0], I(k % 256)) if -128 <= k <= 127 else FALSE
    if a.op == "sx" and b.op == "sx":
        return Eq(a.args[0], b.args[0])
    if a.op == "ite" and isc(b):
        c, x, y = a.args
        if isc(x) or isc(y):
            return Ite(c, Eq(x, b), Eq(y, b))
    if a.sort == "Int" and a.op == "+" and b.op == "int":
        cs = [x for x in a.args if x.op == "int"]
        if cs:
            return Eq(Add(*[x for x in a.args if x.op != "int"]),
                      I(cv(b) - cv(cs[0])))
    if a.sort == "Int" and (a.op == "+" or b.op == "+"):
        d = Sub(a, b)
        if d.op == "int":
            return B(cv(d) == 0)
    return T("=", (a, b), "Bool")


def Ne(a, b):
    return Not(Eq(a, b))


# ---------------------------------------------------------------- integers
_addm = {}


def Add(*xs):
    r = _addm.get(xs)
    if r is None:
        r = _addm[xs] = _Add(*xs)
    return r


def _Add(*xs):
    # linear normal form: sum of (coef * atom) + const
    k = 0
    coef = {}
    order = []

    def go(t, m):
        nonlocal k
        t = coerce(t)
        if t.op == "int":
            k += m * cv(t)
        elif t.op == "+":
            for a in t.args:
                go(a, m)
        elif t.op == "*" and t.args[0].op == "int":
            go(t.args[1], m * cv(t.args[0]))
        else:
            if t not in coef:
                coef[t] = 0
                order.append(t)
            coef[t] += m
    for x in xs:
        go(x, 1)
    out = []
    for t in order:
        c = coef[t]
        if c == 0:
            continue
        out.append(t if c == 1 else T("*", (I(c), t), "Int"))
    if k != 0 or not out:
        out.append(I(k))
    if len(out) == 1:
        return out[0]
    return T("+", tuple(out), "Int")


def Neg(a):
    return Mul(I(-1), a)


_mulm = {}


def Mul(a, b):
    r = _mulm.get((a, b))
    if r is None:
        r = _mulm[(a, b)] = _Mul(a, b)
    return r


def _Mul(a, b):
    a, b = coerce(a), coerce(b)
    if b.op == "int":
        a, b = b, a
    if a.op == "int":
        if b.op == "int":
            return I(cv(a) * cv(b))
        if cv(a) == 0:
            return I(0)
        if cv(a) == 1:
            return b
        if b.op == "+":
            return Add(*[Mul(a, x) for x in b.args])
        if b.op == "*" and b.args[0].op == "int":
            return Mul(I(cv(a) * cv(b.args[0])), b.args[1])
    return T("*", (a, b), "Int")


def Sub(a, b):
    return Add(a, Mul(I(-1), b))


_lem = {}


def Le(a, b):
    r = _lem.get((a, b))
    if r is None:
        r = _lem[(a, b)] = _Le(a, b)
    return r


def _Le(a, b):
    a, b = coerce(a), coerce(b)
    if a == b:
        return TRUE
    if a.op == "int" and b.op == "int":
        return B(cv(a) <= cv(b))
    if a.op == "sx" and b.op == "int" or b.op == "sx" and a.op == "int":
        pass
    d = Sub(b, a)
    if d.op == "int":
        return B(cv(d) >= 0)
    if a.op == "int" and cv(a) <= 0 and b.op in ("len", "code"):
        return TRUE
    if b.op == "int" and a.op == "code" and cv(b) >= 255:
        return TRUE
    return T("<=", (a, b), "Bool")


_ltm = {}


def Lt(a, b):
    r = _ltm.get((a, b))
    if r is None:
        r = _ltm[(a, b)] = _Lt(a, b)
    return r


def _Lt(a, b):
    a, b = coerce(a), coerce(b)
    if a.op == "int" and b.op == "int":
        return B(cv(a) < cv(b))
    if a == b:
        return FALSE
    d = Sub(b, a)
    if d.op == "int":
        return B(cv(d) > 0)
    if b.op == "int" and cv(b) <= 0 and a.op in ("len", "code"):
        return FALSE
    return T("<", (a, b), "Bool")


def Ge(a, b):
    return Le(b, a)


def Gt(a, b):
    return Lt(b, a)


def Min(a, b):
    return Ite(Le(a, b), a, b)


def Max(a, b):
    return Ite(Le(a, b), b, a)


def Div(a, b):  # truncating toward zero for non-negative operands only
    a, b = coerce(a), coerce(b)
    if isc(a) and isc(b) and cv(b) != 0:
        q = abs(cv(a)) // abs(cv(b))
        return I(q if (cv(a) >= 0) == (cv(b) >= 0) else -q)
    return T("div", (a, b), "Int")


def Mod(a, b):
    a, b = coerce(a), coerce(b)
    if isc(a) and isc(b) and cv(b) > 0:
        return I(cv(a) % cv(b))
    return T("mod", (a, b), "Int")


def SX(a):
    """byte 0..255 -> signed char value"""
    a = coerce(a)
    if a.op == "int":
        return I(cv(a) if cv(a) < 128 else cv(a) - 256)
    return T("sx", (a,), "Int")


def ToByte(a):
    """int -> byte (conversion to char)"""
    a = coerce(a)
    if a.op == "int":
        return I(cv(a) % 256)
    if a.op == "sx":
        return a.args[0]
    if a.op == "ite":
        return Ite(a.args[0], ToByte(a.args[1]), ToByte(a.args[2]))
    return Mod(a, I(256))


W64 = 1 << 64
NPOS = I(W64 - 1)


def WrapAdd(a, b):
    s = Add(a, b)
    if s.op == "int":
        return I(cv(s) % W64)
    if coerce(a) == NPOS:
        return Ite(Eq(b, 0), NPOS, Sub(b, 1))
    if coerce(b) == NPOS:
        return Ite(Eq(a, 0), NPOS, Sub(a, 1))
    return Ite(Lt(s, I(W64)), s, Sub(s, I(W64)))


def WrapSub(a, b):
    s = Sub(a, b)
    if s.op == "int":
        return I(cv(s) % W64)
    return Ite(Ge(s, 0), s, Add(s, I(W64)))


# ---------------------------------------------------------------- strings
def Len(s):
    s = coerce(s)
    if s.op == "str":
        return I(len(cv(s)))
    if s.op == "++":
        return Add(*[Len(x) for x in s.args])
    if s.op == "repeat":
        n = s.args[1]
        return Ite(Le(0, n), n, I(0))
    if s.op in ("upd", "map"):
        return Len(s.args[0])
    if s.op == "chr":
        return I(1)
    return T("len", (s,), "Int")


def Concat(*xs):
    out = []
    for x in xs:
        x = coerce(x)
        parts = x.args if x.op == "++" else (x,)
        for p in parts:
            if p.op == "str":
                if cv(p) == "":
                    continue
                if out and out[-1].op == "str":
                    out[-1] = S(cv(out[-1]) + cv(p))
                    continue
            out.append(p)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return T("++", tuple(out), "Str")


def Substr(s, i, n):
    """SMT-LIB str.substr semantics"""
    s, i, n = coerce(s), coerce(i), coerce(n)
    if s.op == "str" and i.op == "int" and n.op == "int":
        a, k, st = cv(i), cv(n), cv(s)
        if a < 0 or a >= len(st) or k <= 0:
            return S("")
        return S(st[a:a + k])
    if n.op == "int" and cv(n) <= 0:
        return S("")
    if i == I(0) and n == Len(s):
        return s
    return T("substr", (s, i, n), "Str")


def Slice(s, a, b):
    """s[a..b)"""
    return Substr(s, a, Sub(b, a))


def From(s, a):
    return Substr(s, a, Sub(Len(s), a))


def Code(s, i):
    """byte at position i (0 at or past the end / before the start)"""
    s, i = coerce(s), coerce(i)
    if s.op == "str" and i.op == "int":
        k = cv(i)
        return I(ord(cv(s)[k])) if 0 <= k < len(cv(s)) else I(0)
    return T("code", (s, i), "Int")


def Chr(c):
    """one-character string from byte"""
    c = coerce(c)
    if c.op == "int":
        return S(chr(cv(c) % 256))
    return T("chr", (c,), "Str")


def Repeat(c, n):
    c, n = coerce(c), coerce(n)
    if c.op == "int" and n.op == "int":
        return S(chr(cv(c) % 256) * max(0, cv(n)))
    if n.op == "int" and 0 <= cv(n) <= 4:
        return Concat(*[Chr(c)] * cv(n))
    return T("repeat", (c, n), "Str")


def AllIn(s, a, b, chars):
    """every character s[k], a <= k < b, belongs to `chars` (Python string of
    latin-1 characters); positions outside s read as NUL"""
    s, a, b = coerce(s), coerce(a), coerce(b)
    chars = "".join(sorted(set(chars)))
    if a == b:
        return TRUE
    if a.op == "int" and b.op == "int" and cv(b) <= cv(a):
        return TRUE
    if s.op == "str" and a.op == "int" and b.op == "int":
        v = cv(s)
        return B(all((v[k] if 0 <= k < len(v) else "\0") in chars
                     for k in range(cv(a), cv(b))))
    return T("allin", (s, a, b, chars), "Bool")


def InSet(s, chars):
    s = coerce(s)
    if s.op == "++":
        return And(*[InSet(x, chars) for x in s.args])
    if s.op == "repeat" and s.args[0].op == "int":
        if chr(cv(s.args[0])) in chars:
            return TRUE
        return Le(s.args[1], 0)
    return AllIn(s, I(0), Len(s), chars)


def Upd(s, i, c):
    """s with the character at i replaced by byte c (i in range)"""
    s, i, c = coerce(s), coerce(i), coerce(c)
    if isc(s) and isc(i) and isc(c):
        v, k = cv(s), cv(i)
        return S(v[:k] + chr(cv(c) % 256) + v[k + 1:])
    return T("upd", (s, i, c), "Str")


def MapCase(kind, s):
    """ASCII case mapping, kind in 'lower','upper'"""
    s = coerce(s)
    if s.op == "str":
        f = (lambda c: c.lower()) if kind == "lower" else \
            (lambda c: c.upper())
        return S("".join(f(c) if ord(c) < 128 else c for c in cv(s)))
    return T("map", (s, kind), "Str")


def CaseC(kind, c):
    c = coerce(c)
    if kind == "lower":
        return Ite(And(Le(65, c), Le(c, 90)), Add(c, 32), c)
    return Ite(And(Le(97, c), Le(c, 122)), Sub(c, 32), c)


def CodeIn(c, chars):
    return Or(*[Eq(c, ord(ch)) for ch in sorted(set(chars))])


def FromInt(n):
    n = coerce(n)
    if n.op == "int" and cv(n) >= 0:
        return S(str(cv(n)))
    return T("fromint", (n,), "Str")


def ToInt(s):
    s = coerce(s)
    if s.op == "str":
        v = cv(s)
        return I(int(v)) if v and all("0" <= c <= "9" for c in v) else I(-1)
    return T("toint", (s,), "Int")


# ---------------------------------------------------------------- sequences
# An array term (sort A_Int, A_Bool, A_Str) is a total map from indices; a
# sequence is one array per scalar leaf of its element plus a length.  Reading
# is pushed through every constructor, so a query only reads array variables.
ARANGE = {}         # array variable -> (lo, hi): range of its elements


def ASort(sort):
    return "A_" + sort


def AVar(hint, sort, rng=None):
    a = fresh(hint, ASort(sort))
    if rng is not None:
        ARANGE[a] = rng
    return a


def arange(a):
    """range of the elements of an array term, when all its pieces agree"""
    if a in ARANGE:
        return ARANGE[a]
    if a.op == "sto":
        return arange(a.args[0])
    if a.op == "splice":
        return arange(a.args[0])
    if a.op == "ite":
        return arange(a.args[1])
    return None


def Sel(a, i):
    i = coerce(i)
    o = a.op
    if o == "sto":
        b, j, v = a.args
        if j == i:
            return v
        if j.op == "int" and i.op == "int":
            return Sel(b, i)
        return Ite(Eq(i, j), v, Sel(b, i))
    if o == "splice":
        b, p, q, c, m = a.args
        return Ite(Lt(i, p), Sel(b, i),
                   Ite(Lt(i, Add(p, m)), Sel(c, Sub(i, p)),
                       Sel(b, Add(Sub(i, m), Sub(q, p)))))
    if o == "konst":
        return a.args[0]
    if o == "ite":
        return Ite(a.args[0], Sel(a.args[1], i), Sel(a.args[2], i))
    if o == "lam":
        return subst(a.args[1], {a.args[0]: i})
    return T("sel", (a, i), a.sort[2:])


def Sto(a, i, v):
    i, v = coerce(i), coerce(v)
    if v.op == "sel" and v.args == (a, i):
        return a
    if a.op == "sto" and a.args[1] == i:
        return Sto(a.args[0], i, v)
    return T("sto", (a, i, v), a.sort)


def Splice(a, p, q, c, m):
    """a[p..q) replaced by c[0..m)"""
    p, q, m = coerce(p), coerce(q), coerce(m)
    if p == q and m == I(0):
        return a
    return T("splice", (a, p, q, c, m), a.sort)


def Konst(v):
    v = coerce(v)
    return T("konst", (v,), ASort(v.sort))


_lamd = [0]


def Lam(f, sort):
    k = Var("k!l%d" % _lamd[0], "Int")
    _lamd[0] += 1
    try:
        b = coerce(f(k))
    finally:
        _lamd[0] -= 1
    return T("lam", (k, b), ASort(b.sort))


_alld = [0]


def AllK(lo, hi, f):
    """for all k, lo <= k < hi: f(k)"""
    lo, hi = coerce(lo), coerce(hi)
    k = Var("k!b%d" % _alld[0], "Int")
    _alld[0] += 1
    try:
        b = coerce(f(k))
    finally:
        _alld[0] -= 1
    return All4(k, lo, hi, b)


def All4(k, lo, hi, b):
    if b.op == "bool" and cv(b):
        return TRUE
    e = Le(hi, lo)
    if e.op == "bool" and cv(e):
        return TRUE
    if lo.op == "int" and hi.op == "int" and cv(hi) - cv(lo) <= 4:
        return And(*[subst(b, {k: I(j)}) for j in range(cv(lo), cv(hi))])
    return T("all", (k, lo, hi, b), "Bool")


def ExK(lo, hi, f):
    return Not(AllK(lo, hi, lambda k: Not(f(k))))


_pat = {}


def patterns(t):
    """[(base, offset)] with base[k + offset] read in the body of all-term t"""
    r = _pat.get(t)
    if r is None:
        k, lo, hi, b = t.args
        seen = set()
        subterms(b, seen)
        r = set()
        for x in seen:
            if x.op in ("sel", "code"):
                off = Sub(x.args[1], k)
                s2 = set()
                subterms(off, s2)
                if k in s2:
                    continue
                s3 = set()
                subterms(x.args[0], s3)
                if any(y.op == "var" and y.args[0].startswith("k!b")
                       for y in s2 | s3):
                    continue
                r.add((x.args[0], off))
        r = _pat[t] = list(r)
    return r


# Uninterpreted / recursively defined spec functions ------------------------
class Fn:
    """Spec function; `defn(*args)` (optional) gives its one-step unfolding and
    `facts(app, *args)` (optional) extra instantiated facts.  When all the
    arguments are constants and `conc` is given it is evaluated."""
    table = {}

    def __init__(self, name, sorts, ret, defn=None, conc=None, facts=None,
                 depth=1):
        self.name, self.sorts, self.ret = name, sorts, ret
        self.defn, self.conc, self.facts, self.depth = defn, conc, facts, depth
        assert name not in Fn.table, name
        Fn.table[name] = self

    def __call__(self, *args):
        args = tuple(coerce(a) for a in args)
        assert len(args) == len(self.sorts), self.name
        for a, s in zip(args, self.sorts):
            assert a.sort == s, "%s: %s is not %s" % (self.name, a, s)
        if self.conc and all(isc(a) for a in args):
            return coerce(self.conc(*[cv(a) for a in args]))
        return T("app", (self.name,) + args, self.ret)


def subterms(t, seen):
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        stack.extend(a for a in x.args if isinstance(a, T))


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    if t.op in ("all", "lam") and t.args[0] in m:
        m2 = {a: b for a, b in m.items() if a is not t.args[0]}
        r = rebuild(t.op, [t.args[0]] + [subst(a, m2) for a in t.args[1:]],
                    t.sort) if m2 else t
        memo[t] = r
        return r
    if t.op in ("int", "bool", "str", "var"):
        r = t
    else:
        r = rebuild(t.op, [subst(a, m, memo) for a in t.args], t.sort)
    memo[t] = r
    return r


def rebuild(op, a, sort):
    f = {"not": Not, "and": And, "or": Or, "ite": Ite, "=": Eq, "+": Add,
         "*": Mul, "<=": Le, "<": Lt, "div": Div, "mod": Mod, "sx": SX,
         "len": Len, "++": Concat, "substr": Substr, "code": Code, "chr": Chr,
         "repeat": Repeat, "allin": AllIn, "upd": Upd,
         "map": lambda x, k: MapCase(k, x), "fromint": FromInt,
         "toint": ToInt, "sel": Sel, "sto": Sto, "splice": Splice,
         "konst": Konst, "all": All4}.get(op)
    if f:
        return f(*a)
    if op == "app":
        return Fn.table[a[0]](*a[1:])
    return T(op, tuple(a), sort)
