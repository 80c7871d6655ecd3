"""Back end: obligations -> QF_UFLIA (+ instantiated theory facts), z3 in
process, with a second opinion from cvc5.

Byte strings are an uninterpreted sort with `len` and `code`; every structural
string operator is characterised by the standard extensional facts, instantiated
for the terms of the query (array-property style: universally quantified facts
are instantiated at the index terms that occur, existential ones get a witness).
Instantiation can only make a valid goal unproved, never an invalid one proved.
"""
import hashlib
import subprocess
import time

import z3

from .terms import *

MAXLEN = 1 << 31
STATS = {"queries": 0, "z3_s": 0.0, "cvc5": 0, "cvc5_s": 0.0, "unknown": 0,
         "cache": 0, "prune": 0}

STOP = [None]       # callable: give up now?


class TimeUp(Exception):
    pass


_strsort = z3.DeclareSort("Str")
_sorts = {"Int": z3.IntSort(), "Bool": z3.BoolSort(), "Str": _strsort}


def zsort(s):
    if s not in _sorts:
        _sorts[s] = z3.DeclareSort(s)
    return _sorts[s]


_f = {}


def zf(name, *sorts):
    k = (name,) + sorts
    if k not in _f:
        _f[k] = z3.Function(name, *[zsort(x) for x in sorts])
    return _f[k]


_memo = {}
_alls = []


def z(t):
    r = _memo.get(t)
    if r is None:
        r = _z(t)
        _memo[t] = r
    return r


def Wit(kind, *args):
    """witness index of a negated universal"""
    return T("app", ("wit_" + kind,) + args, "Int")


def _z(t):
    o, a = t.op, t.args
    if o == "int":
        return z3.IntVal(a[0])
    if o == "bool":
        return z3.BoolVal(a[0])
    if o == "var":
        return z3.Const(a[0], zsort(t.sort))
    if o == "str":
        return z3.Const("lit_" + a[0].encode("latin-1").hex(), _strsort)
    if o == "not":
        return z3.Not(z(a[0]))
    if o == "and":
        return z3.And(*[z(x) for x in a])
    if o == "or":
        return z3.Or(*[z(x) for x in a])
    if o == "ite":
        return z3.If(z(a[0]), z(a[1]), z(a[2]))
    if o == "=":
        x, y = a
        if x.sort == "Str" and y.op == "str":
            return z(litEq(x, cv(y)))
        if x.sort == "Str" and x.op == "str":
            return z(litEq(y, cv(x)))
        return z(x) == z(y)
    if o == "+":
        return z3.Sum(*[z(x) for x in a])
    if o == "*":
        return z(a[0]) * z(a[1])
    if o == "<=":
        return z(a[0]) <= z(a[1])
    if o == "<":
        return z(a[0]) < z(a[1])
    if o == "div":
        return z(a[0]) / z(a[1])
    if o == "mod":
        return z(a[0]) % z(a[1])
    if o == "sx":
        return z3.If(z(a[0]) < 128, z(a[0]), z(a[0]) - 256)
    if o == "len":
        return zf("len", "Str", "Int")(z(a[0]))
    if o == "code":
        return zf("code", "Str", "Int", "Int")(z(a[0]), z(a[1]))
    if o == "substr":
        return zf("substr", "Str", "Int", "Int", "Str")(*[z(x) for x in a])
    if o == "chr":
        return zf("chr", "Int", "Str")(z(a[0]))
    if o == "repeat":
        return zf("repeat", "Int", "Int", "Str")(z(a[0]), z(a[1]))
    if o == "upd":
        return zf("upd", "Str", "Int", "Int", "Str")(*[z(x) for x in a])
    if o == "map":
        return zf("map_" + a[1], "Str", "Str")(z(a[0]))
    if o == "++":
        r = z(a[-1])
        for x in reversed(a[:-1]):
            r = zf("cat", "Str", "Str", "Str")(z(x), r)
        return r
    if o == "allin":
        return zf("allin_" + a[3].encode("latin-1").hex(), "Str", "Int", "Int",
                  "Bool")(*[z(x) for x in a[:3]])
    if o == "sel":
        return zf("sel_" + a[0].sort, a[0].sort, "Int", t.sort)(
            z(a[0]), z(a[1]))
    if o == "all":
        _alls.append(t)
        return z3.Bool("all!%d" % len(_alls))
    if o == "fromint":
        return zf("fromint", "Int", "Str")(z(a[0]))
    if o == "toint":
        return zf("toint", "Str", "Int")(z(a[0]))
    if o == "app":
        args = a[1:]
        return zf(a[0], *([x.sort for x in args] + [t.sort]))(
            *[z(x) for x in args])
    raise NotImplementedError("encode " + o)


def litEq(x, lit):
    return And(Eq(Len(x), len(lit)),
               *[Eq(Code(x, I(k)), ord(ch)) for k, ch in enumerate(lit)])


def catSplit(t):
    """(head, tail) of a concatenation term, matching the encoding"""
    h = t.args[0]
    r = t.args[1:]
    return h, (r[0] if len(r) == 1 else T("++", r, "Str"))


def memo(f):
    tab = {}

    def g(*a):
        r = tab.get(a)
        if r is None:
            r = tab[a] = f(*a)
        return r
    return g


@memo
def facts_len(t):
    s = t.args[0]
    o = s.op
    out = [T("<=", (I(0), t), "Bool")]
    if o in ("var", "sel"):
        out.append(Lt(t, I(MAXLEN * 64)))
    if o == "substr":
        b, i, n = s.args
        L = Len(b)
        out.append(Eq(t, Ite(And(Le(0, i), Lt(i, L), Lt(0, n)),
                             Min(n, Sub(L, i)), I(0))))
    elif o == "ite":
        out.append(Eq(t, Ite(s.args[0], Len(s.args[1]), Len(s.args[2]))))
    elif o == "fromint":
        n = s.args[0]
        out.append(Implies(Le(0, n), Le(1, t)))
        out.append(Implies(And(Le(0, n), Lt(n, 1000000)),
                           Eq(t, Ite(Lt(n, 10), 1, Ite(Lt(n, 100), 2, Ite(
                               Lt(n, 1000), 3, Ite(Lt(n, 10000), 4, Ite(
                                   Lt(n, 100000), 5, 6))))))))
    return out


@memo
def facts_code(t):
    s, i = t.args
    o = s.op
    out = [Le(0, t) if t.op != "code" else T("<=", (I(0), t), "Bool"),
           T("<=", (t, I(255)), "Bool"),
           Or(And(Le(0, i), Lt(i, Len(s))), Eq(t, 0))]
    if o == "substr":
        b, p, n = s.args
        out.append(Implies(And(Le(0, i), Lt(i, Len(s))),
                           Eq(t, Code(b, Add(p, i)))))
    elif o == "++":
        off = I(0)
        offs = []
        for h in s.args:
            offs.append((h, off))
            off = Add(off, Len(h))
        h, o2 = offs[-1]
        e = Code(h, Sub(i, o2))
        for h, o2 in reversed(offs[:-1]):
            e = Ite(Lt(i, Add(o2, Len(h))), Code(h, Sub(i, o2)), e)
        out.append(Eq(t, e))
    elif o == "ite":
        out.append(Eq(t, Ite(s.args[0], Code(s.args[1], i),
                             Code(s.args[2], i))))
    elif o == "repeat":
        c, n = s.args
        out.append(Implies(And(Le(0, i), Lt(i, n)), Eq(t, c)))
    elif o == "chr":
        out.append(Implies(Eq(i, 0), Eq(t, s.args[0])))
    elif o == "upd":
        b, p, c = s.args
        out.append(Eq(t, Ite(And(Eq(i, p), Le(0, p), Lt(p, Len(b))), c,
                             Code(b, i))))
    elif o == "map":
        b, kind = s.args
        c = Code(b, i)
        out.append(Eq(t, CaseC(kind, c)))
    elif o == "str":
        v = cv(s)
        e = I(0)
        for k in reversed(range(len(v))):
            e = Ite(Eq(i, k), I(ord(v[k])), e)
        out.append(Eq(t, e))
    elif o == "fromint":
        n = s.args[0]
        out.append(Implies(And(Le(0, n), Le(0, i), Lt(i, Len(s))),
                           And(Le(48, t), Le(t, 57))))
    return out


@memo
def facts_allin(t):
    s, a, b, ch = t.args
    w = Wit("allin_" + ch.encode("latin-1").hex(), s, a, b)
    return [Or(t, And(Le(a, w), Lt(w, b), Not(inset(Code(s, w), ch)))),
            Implies(Le(b, a), t),
            # one-step unfolding at both ends
            Implies(And(t, Lt(a, b)), inset(Code(s, Sub(b, 1)), ch)),
            Implies(And(t, Lt(a, b)), inset(Code(s, a), ch))]


@memo
def inst_allin(t, i):
    s, a, b, ch = t.args
    return Implies(And(t, Le(a, i), Lt(i, b)), inset(Code(s, i), ch))


@memo
def all_facts(t):
    k, lo, hi, b = t.args
    w = T("var", ("wit_all%d" % _wit_id(t),), "Int")
    return [Or(t, And(Le(lo, w), Lt(w, hi), Not(subst(b, {k: w})))),
            inst_all(t, lo), inst_all(t, Sub(hi, 1))]


_wits = {}


def _wit_id(t):
    return _wits.setdefault(t, len(_wits))


@memo
def inst_all(t, i):
    k, lo, hi, b = t.args
    return Implies(And(t, Le(lo, i), Lt(i, hi)), subst(b, {k: i}))


@memo
def sel_facts(t):
    r = ARANGE.get(t.args[0])
    if r is None:
        return []
    return [T("<=", (I(r[0]), t), "Bool"), T("<=", (t, I(r[1])), "Bool")]


@memo
def fn_defn(t):
    return Eq(t, Fn.table[t.args[0]].defn(*t.args[1:]))


@memo
def fn_facts(t):
    return list(Fn.table[t.args[0]].facts(t, *t.args[1:]))


@memo
def fn_pair(p, q):
    return list(Fn.table[p.args[0]].pair(p, q))


class Query:
    """assertions + instantiated facts"""

    def __init__(self, asserts, rounds=4, maxfacts=6000, chain=0):
        self.asserts = list(asserts)
        self.chain = chain
        self.facts = []
        self._close(rounds, maxfacts)

    def _close(self, rounds, maxfacts):
        seen = {}           # term -> generation
        facts = []
        done = set()

        def add(t, g):
            stack = [t]
            while stack:
                x = stack.pop()
                if not isinstance(x, T) or x in seen:
                    continue
                seen[x] = g
                new.append(x)
                if x.op == "=" and x.args[0].sort == "Str" and \
                        x.args[1].op == "str":
                    stack.append(litEq(x.args[0], cv(x.args[1])))
                if x.op == "all":
                    stack.extend(x.args[1:3])
                    continue
                stack.extend(y for y in x.args if isinstance(y, T))

        new = []
        for a in self.asserts:
            add(a, 0)
        codes = {}          # string term -> list of index
        allins = {}         # string term -> list of allin
        eqs = []            # string equalities
        alls = []           # bounded universals over sequences
        inst = set()

        def fact(f, g):
            if f.op == "bool" and cv(f):
                return
            if f in done:
                return
            done.add(f)
            facts.append(f)
            add(f, g)

        for rnd in range(rounds + self.chain):
            work, new = new, []
            if not work and rnd > 0:
                break
            if rnd >= rounds:
                # chains of universals over successive versions of a sequence
                if not alls:
                    break
                for t in work:
                    if t.op == "sel":
                        codes.setdefault(t.args[0], []).append(t.args[1])
                        for f in sel_facts(t):
                            fact(f, seen[t])
                    elif t.op == "len":
                        fact(Le(0, t), seen[t] + 1)
                self._inst_alls(alls, codes, inst, fact, rnd)
                if len(facts) > maxfacts:
                    break
                continue
            for t in work:
                g = seen[t]
                o = t.op
                if o == "len":
                    for f in facts_len(t):
                        fact(f, g + 1)
                elif o == "code":
                    for f in facts_code(t):
                        fact(f, g + 1)
                    codes.setdefault(t.args[0], []).append(t.args[1])
                elif o == "sel":
                    codes.setdefault(t.args[0], []).append(t.args[1])
                    for f in sel_facts(t):
                        fact(f, g)
                elif o == "all":
                    alls.append(t)
                    for f in all_facts(t):
                        fact(f, g + 1)
                elif o == "allin":
                    allins.setdefault(t.args[0], []).append(t)
                    for f in facts_allin(t):
                        fact(f, g + 1)
                elif o == "=" and t.args[0].sort == "Str" and \
                        t.args[1].op != "str":
                    x, y = t.args
                    w = Wit("eq", x, y)
                    fact(Or(t, Ne(Len(x), Len(y)),
                            And(Le(0, w), Lt(w, Len(x)),
                                Ne(Code(x, w), Code(y, w)))), g + 1)
                    fact(Implies(t, Eq(Len(x), Len(y))), g + 1)
                    eqs.append(t)
                elif o == "toint":
                    fact(Le(-1, t), g + 1)
                    if t.args[0].op == "fromint":
                        fact(Implies(Le(0, t.args[0].args[0]),
                                     Eq(t, t.args[0].args[0])), g + 1)
                elif o == "app" and t.args[0] in Fn.table:
                    fn = Fn.table[t.args[0]]
                    if fn.defn and g <= fn.depth:
                        fact(fn_defn(t), g + 1)
                    if fn.facts and g <= fn.depth + 1:
                        for f in fn_facts(t):
                            fact(f, g + 1)
                elif o == "substr":
                    if ("len", t) not in done:
                        done.add(("len", t))
                        add(T("len", (t,), "Int"), g)
                elif o == "str":
                    fact(T("=", (T("len", (t,), "Int"), I(len(cv(t)))),
                           "Bool"), g)
                elif o in ("++", "repeat", "chr", "upd", "map"):
                    # lengths of structural terms are folded by Len(), tie the
                    # uninterpreted len() of the term to it
                    fact(T("=", (T("len", (t,), "Int"), Len(t)), "Bool"), g)
            # pairwise facts between terms of the same base
            for fn in list(Fn.table.values()):
                if getattr(fn, "pair", None):
                    apps = [x for x in seen if x.op == "app" and
                            x.args[0] == fn.name]
                    for i, p in enumerate(apps[:40]):
                        for q in apps[:40]:
                            if p is q or (p, q) in inst:
                                continue
                            inst.add((p, q))
                            for f in fn_pair(p, q):
                                fact(f, max(seen[p], seen[q]) + 1)
            # bounded universals between two strings
            for fn in list(Fn.table.values()):
                if getattr(fn, "inst", None):
                    for t in [x for x in seen if x.op == "app" and
                              x.args[0] == fn.name]:
                        idx = set()
                        for a in t.args[1:]:
                            if a.sort == "Str":
                                idx.update(codes.get(a, ()))
                        for i in idx:
                            if (t, i) in inst:
                                continue
                            inst.add((t, i))
                            fact(fn.inst(t, i), rnd + 1)
            # instantiate allin at index terms
            for s, ts in allins.items():
                idx = codes.get(s, ())
                for t in ts:
                    _, a, b, ch = t.args
                    for i in idx:
                        key = (t, i)
                        if key in inst:
                            continue
                        inst.add(key)
                        fact(inst_allin(t, i), rnd + 1)
            self._inst_alls(alls, codes, inst, fact, rnd)
            for t in eqs:
                x, y = t.args
                for p, q in ((x, y), (y, x)):
                    for i in codes.get(p, ()):
                        key = (t, p, i)
                        if key in inst:
                            continue
                        inst.add(key)
                        fact(Implies(t, Eq(Code(p, i), Code(q, i))), rnd + 1)
            if len(facts) > maxfacts:
                break
        self.facts = facts
        self.terms = seen
        # sequence facts left uninstantiated
        self.pending = bool(alls) and any(t.op == "sel" for t in new)

    def _inst_alls(self, alls, codes, inst, fact, rnd):
        for t in list(alls):
            for base, off in patterns(t):
                for i in list(codes.get(base, ())):
                    j = Sub(i, off)
                    key = (t, j)
                    if key in inst:
                        continue
                    inst.add(key)
                    fact(inst_all(t, j), rnd + 1)


@memo
def inset(c, chars):
    """byte term c in the set, as interval constraints"""
    if c.op == "int":
        return B(chr(cv(c)) in chars)
    codes = sorted(ord(x) for x in chars)
    rs = []
    for k in codes:
        if rs and rs[-1][1] == k - 1:
            rs[-1][1] = k
        else:
            rs.append([k, k])
    return Or(*[Eq(c, lo) if lo == hi else
                And(T("<=", (I(lo), c), "Bool"), T("<=", (c, I(hi)), "Bool"))
                for lo, hi in rs])


_cache = {}


class Result:
    def __init__(self, status, model=None, reason="", query=None, t=0.0,
                 backend="z3"):
        self.status, self.model, self.reason = status, model, reason
        self.query, self.t, self.backend = query, t, backend


def canon(asserts):
    """cache key, independent of fresh-variable numbering"""
    names = {}
    out = []
    memo = {}

    def go(t):
        r = memo.get(t)
        if r is not None:
            return r
        if not isinstance(t, T):
            return repr(t)
        if t.op == "var":
            n = t.args[0]
            if n not in names:
                names[n] = "v%d" % len(names)
            r = names[n] + t.sort
        else:
            r = "(" + t.op + " " + " ".join(go(x) for x in t.args) + ")"
        memo[t] = r
        return r
    for a in asserts:
        out.append(go(a))
    return hashlib.sha1("\n".join(out).encode("latin-1", "replace")).digest()


def check(asserts, timeout=4000, use_cvc5=False, rounds=4, want_model=True,
          chain=0):
    """satisfiability of the conjunction: 'unsat' | 'sat' | 'unknown'"""
    asserts = [a for a in asserts if not (a.op == "bool" and cv(a))]
    for a in asserts:
        if a.op == "bool":
            return Result("unsat", backend="fold")
    key = (canon(asserts), rounds, chain)
    if key in _cache and not (want_model and _cache[key] == "sat"):
        STATS["cache"] += 1
        return Result(_cache[key], backend="cache")
    q = Query(asserts, rounds, chain=chain)
    s = z3.SolverFor("QF_UFLIA")
    s.set("timeout", timeout)
    for a in q.asserts:
        s.add(z(a))
    for f in q.facts:
        s.add(z(f))
    t0 = time.time()
    r = s.check()
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["z3_s"] += dt
    st = str(r)
    res = Result(st, query=q, t=dt)
    if st == "sat" and want_model:
        res.model = Model(s.model(), q)
    if st == "unknown":
        STATS["unknown"] += 1
        res.reason = s.reason_unknown()
        if use_cvc5:
            st2 = cvc5_check(s.to_smt2(), timeout)
            if st2 == "unsat":
                res = Result("unsat", query=q, t=dt, backend="cvc5")
    _cache[key] = res.status
    return res


def cvc5_check(smt2, timeout):
    t0 = time.time()
    STATS["cvc5"] += 1
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % timeout],
                           input="(set-logic QF_UFLIA)\n" + smt2,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split("\n")[0]
    except subprocess.TimeoutExpired:
        out = "unknown"
    STATS["cvc5_s"] += time.time() - t0
    return out


class Model:
    """values for the query's variables, strings rebuilt from len/code"""

    def __init__(self, m, q):
        self.m, self.q = m, q

    def ev(self, t):
        v = self.m.eval(z(t), model_completion=True)
        if t.sort == "Int":
            return v.as_long()
        if t.sort == "Bool":
            return z3.is_true(v)
        if t.sort == "Str":
            n = self.m.eval(zf("len", "Str", "Int")(z(t)),
                            model_completion=True).as_long()
            n = max(0, min(n, 300))
            out = []
            cf = zf("code", "Str", "Int", "Int")
            for i in range(n):
                c = self.m.eval(cf(z(t), z3.IntVal(i)),
                                model_completion=True).as_long()
                out.append(chr(c % 256) if c % 256 else "x")
            return "".join(out)
        if t.sort.startswith("A_"):
            return [self.ev(T("sel", (t, I(i)), t.sort[2:]))
                    for i in range(6)]
        return str(v)

    def vars(self):
        return {t.args[0]: self.ev(t) for t in self.q.terms
                if isinstance(t, T) and t.op == "var"}


def feasible(pc, timeout=300):
    """cheap pruning: False only when the path condition is contradictory"""
    STATS["prune"] += 1
    if STOP[0] is not None and STOP[0]():
        raise TimeUp()
    r = check(pc, timeout=timeout, rounds=2, want_model=False)
    return r.status != "unsat"


def prove(pc, goal, timeout=4000, use_cvc5=True, chain=False):
    if goal.op == "bool" and cv(goal):
        return Result("unsat", backend="fold")
    r = check(list(pc) + [Not(goal)], timeout=timeout, use_cvc5=use_cvc5)
    if chain and r.status == "sat" and r.query is not None and \
            r.query.pending:
        return check(list(pc) + [Not(goal)], timeout=timeout,
                     use_cvc5=use_cvc5, chain=24)
    return r
