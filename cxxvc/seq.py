"""Assumed contracts of std::vector (and other random-access sequences): the
value is a length and one total array per scalar leaf of the element type."""
import re

from .terms import *
from .values import *

VMAX = 1 << 40


def targs(t):
    """template arguments of a type string"""
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:t.rindex(">")]:
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
            continue
        d += ch in "<("
        d -= ch in ">)"
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def vec_elem(t):
    m = re.match(r"(?:std::)?(?:__cxx11::)?(vector|deque|array|"
                 r"initializer_list)<", t)
    return targs(t)[0] if m else None


class Shape:
    """how an element value splits into scalar leaves"""

    def __init__(self, ex, st, elem):
        self.elem = elem
        n = len(st.pc)
        self.proto = ex.symbolic(st, elem, "e")
        facts = st.pc[n:]
        del st.pc[n:]
        self.leaves = []        # (key, sort, range)
        rng = {}
        for f in facts:
            if f.op == "<=":
                a, b = f.args
                if a.op == "int":
                    rng.setdefault(b, [None, None])[0] = cv(a)
                elif b.op == "int":
                    rng.setdefault(a, [None, None])[1] = cv(b)

        def go(v, key):
            if isinstance(v, Rec):
                for k in v.f:
                    go(v.f[k], key + (k,))
            elif isinstance(v, Bits):
                for i, b in enumerate(v.b):
                    self.leaves.append((key + (("bit", i),), "Bool", None))
            elif isinstance(v, T):
                r = rng.get(v)
                self.leaves.append((key, v.sort, tuple(r) if r and None not in
                                    r else None))
            else:
                raise Unsupported("sequence of " + elem)
        go(self.proto, ())
        self.rng = {k: r for k, _, r in self.leaves}

    def build(self, f):
        def go(v, key):
            if isinstance(v, Rec):
                return Rec(v.cls, {k: go(v.f[k], key + (k,)) for k in v.f})
            if isinstance(v, Bits):
                return Bits(f(key + (("bit", i),)) for i in range(len(v.b)))
            return f(key)
        return go(self.proto, ())

    def split(self, v):
        out = {}

        def go(p, x, key):
            if isinstance(p, Rec):
                if not isinstance(x, Rec):
                    raise Unsupported("element value %r" % (x,))
                for k in p.f:
                    go(p.f[k], x.f.get(k, UNINIT), key + (k,))
            elif isinstance(p, Bits):
                for i, b in enumerate(x.b):
                    out[key + (("bit", i),)] = b
            else:
                if x is UNINIT:
                    # an indeterminate value: anything
                    x = fresh("indet", p.sort)
                if not isinstance(x, T):
                    raise Unsupported("element leaf %r" % (x,))
                out[key] = x
        go(self.proto, v, ())
        return out


class Vec:
    __slots__ = ("shape", "length", "arrs", "fixed")

    def __init__(self, shape, n, arrs, fixed=False):
        self.shape, self.length, self.arrs = shape, n, arrs
        self.fixed = fixed      # std::array: the length is part of the type

    @staticmethod
    def symbolic(ex, st, elem, hint, n=None):
        sh = ex.shape(st, elem)
        if n is None:
            n = fresh(hint + "_n", "Int")
            st.assume(Le(0, n))
            st.assume(Le(n, VMAX))
        return Vec(sh, n, {k: AVar("%s_%s" % (hint, keyname(k)), s, r)
                           for k, s, r in sh.leaves})

    @staticmethod
    def empty(ex, st, elem):
        sh = ex.shape(st, elem)
        zero = {"Int": I(0), "Bool": FALSE, "Str": S("")}
        return Vec(sh, I(0), {k: Konst(zero[s]) for k, s, r in sh.leaves})

    # -- access paths
    def get(self, st, p):
        if p[0] == "at":
            return self.shape.build(lambda k: Sel(self.arrs[k], p[1]))
        if p[0] == "vn":
            return self.length
        if p[0] == "va":
            return self.arrs[p[1]]
        raise Unsupported("access %r of a sequence" % (p,))

    def set(self, st, p, v):
        if p[0] == "at":
            parts = self.shape.split(v)
            return Vec(self.shape, self.length,
                       {k: Sto(a, p[1], parts[k])
                        for k, a in self.arrs.items()}, self.fixed)
        if p[0] == "vn":
            return Vec(self.shape, v, self.arrs)
        if p[0] == "va":
            g = dict(self.arrs)
            g[p[1]] = v
            return Vec(self.shape, self.length, g, self.fixed)
        raise Unsupported("store %r of a sequence" % (p,))

    def parts(self):
        return [(("vn",), self.length)] + [(("va", k), a)
                                           for k, a in self.arrs.items()]

    def part_type(self, p):
        if p[0] == "vn":
            return "unsigned long"
        if p[0] == "va":
            return "array"
        return self.shape.elem

    def havoc(self, ex, st, hint):
        v = Vec.symbolic(ex, st, self.shape.elem, hint,
                         self.length if self.fixed else None)
        v.fixed = self.fixed
        return v

    def pairs(self, val, m):
        m[self.length] = val.length
        for k, a in self.arrs.items():
            m[a] = val.arrs[k]

    def splice(self, p, q, other, m):
        """[p,q) replaced by m elements (arrays by leaf)"""
        return Vec(self.shape, Add(self.length, Sub(m, Sub(q, p))),
                   {k: Splice(a, p, q, other[k], m)
                    for k, a in self.arrs.items()})

    def konst(self, v):
        return {k: Konst(x) for k, x in self.shape.split(v).items()}

    def __repr__(self):
        return "Vec<%s>(%r)" % (self.shape.elem, self.length)


def keyname(k):
    return "_".join(str(x) if isinstance(x, str) else "%s%s" % x for x in k) \
        or "v"


class VecMethods:
    """mixed into Lib: std::vector operations"""

    def vec_value(self, ex, st, elem, vs, ats, n):
        """[(state, element value)] constructed from emplace arguments"""
        if len(vs) == 1:
            x = st.load(vs[0]) if isinstance(vs[0], LV) else vs[0]
            t = ex.res_type(elem)
            if isinstance(x, T) and t != "string" and not isinstance(
                    ex.shape(st, elem).proto, Rec):
                return [(st, x)]
            if isinstance(x, T) and x.sort == "Str" and t == "string":
                return [(st, x)]
            if isinstance(x, Rec) and x.cls == ex.find_class(t):
                return [(st, x)]
        t = ex.res_type(elem)
        r = self.construct(ex, st, t, "", vs, ats, n)
        if r is not None:
            return r
        c = ex.find_class(t)
        if c is None:
            raise Unsupported("emplace of " + elem)
        return ex.construct(st, c, "", vs, n)

    def vec_method(self, ex, st, lv, v, name, vs, ats, n):
        m = getattr(self, "vec_" + {"operator[]": "index",
                                    "operator=": "assign_op"}.get(name, name),
                    None)
        if m is None:
            raise Unsupported("vector::" + name)
        vs = list(vs)
        while vs and vs[-1] is DEFAULT:
            vs.pop()
        ex.lib_used.add("std::vector::" + name)
        return m(ex, st, lv, v, vs, ats, n)

    def _v(self, st, x):
        return st.load(x) if isinstance(x, LV) else x

    def vec_size(self, ex, st, lv, v, vs, ats, n):
        return [(st, v.length)]

    def vec_empty(self, ex, st, lv, v, vs, ats, n):
        return [(st, Eq(v.length, 0))]

    def vec_clear(self, ex, st, lv, v, vs, ats, n):
        st.put(lv, Vec(v.shape, I(0), v.arrs))
        return [(st, None)]

    def vec_index(self, ex, st, lv, v, vs, ats, n):
        i = self._v(st, vs[0])
        ex.obl(st, "bounds", And(Le(0, i), Lt(i, v.length)), n,
               "vector subscript in bounds")
        return [(st, lv.sub(("at", i)))]

    def vec_at(self, ex, st, lv, v, vs, ats, n):
        i = self._v(st, vs[0])
        out = []
        for s, ok in ex.fork(st, And(Le(0, i), Lt(i, v.length))):
            if ok:
                out.append((s, lv.sub(("at", i))))
            else:
                ex.throw(s, "std::out_of_range", n)
        return out

    def vec_front(self, ex, st, lv, v, vs, ats, n):
        ex.obl(st, "bounds", Lt(0, v.length), n, "front() of non-empty vector")
        return [(st, lv.sub(("at", I(0))))]

    def vec_back(self, ex, st, lv, v, vs, ats, n):
        ex.obl(st, "bounds", Lt(0, v.length), n, "back() of non-empty vector")
        return [(st, lv.sub(("at", Sub(v.length, 1))))]

    def vec_push_back(self, ex, st, lv, v, vs, ats, n):
        x = self._v(st, vs[0])
        w = v.set(st, ("at", v.length), x)
        st.put(lv, Vec(w.shape, Add(v.length, 1), w.arrs))
        return [(st, None)]

    def vec_emplace_back(self, ex, st, lv, v, vs, ats, n):
        out = []
        for s, x in self.vec_value(ex, st, v.shape.elem, vs, ats, n):
            v2 = s.load(lv)
            self.vec_push_back(ex, s, lv, v2, [x], ats, n)
            out.append((s, lv.sub(("at", v2.length))))
        return out

    def vec_pop_back(self, ex, st, lv, v, vs, ats, n):
        ex.obl(st, "bounds", Lt(0, v.length), n,
               "pop_back of non-empty vector")
        st.put(lv, Vec(v.shape, Sub(v.length, 1), v.arrs))
        return [(st, None)]

    def vec_reserve(self, ex, st, lv, v, vs, ats, n):
        return [(st, None)]

    vec_shrink_to_fit = vec_reserve

    def vec_begin(self, ex, st, lv, v, vs, ats, n):
        return [(st, SIter(lv, I(0)))]

    vec_cbegin = vec_begin

    def vec_end(self, ex, st, lv, v, vs, ats, n):
        return [(st, SIter(lv, v.length))]

    vec_cend = vec_end

    def vec_rbegin(self, ex, st, lv, v, vs, ats, n):
        return [(st, SIter(lv, v.length, True))]

    def vec_rend(self, ex, st, lv, v, vs, ats, n):
        return [(st, SIter(lv, I(0), True))]

    vec_crbegin, vec_crend = vec_rbegin, vec_rend

    def vec_erase(self, ex, st, lv, v, vs, ats, n):
        a = self._v(st, vs[0]).i
        if len(vs) > 1:
            b = self._v(st, vs[1]).i
            ex.obl(st, "bounds", And(Le(0, a), Le(a, b), Le(b, v.length)), n,
                   "erase range valid")
        else:
            b = Add(a, 1)
            ex.obl(st, "bounds", And(Le(0, a), Lt(a, v.length)), n,
                   "erase position valid")
        st.put(lv, v.splice(a, b, v.arrs, I(0)))
        return [(st, SIter(lv, a))]

    def vec_insert(self, ex, st, lv, v, vs, ats, n):
        p = self._v(st, vs[0]).i
        ex.obl(st, "bounds", And(Le(0, p), Le(p, v.length)), n,
               "insert position valid")
        xs = [self._v(st, x) for x in vs]
        if len(xs) == 2:
            st.put(lv, v.splice(p, p, v.konst(xs[1]), I(1)))
        elif isinstance(xs[1], SIter):
            src = st.load(xs[1].lv)
            a, b = xs[1].i, xs[2].i
            ex.obl(st, "bounds", And(Le(0, a), Le(a, b), Le(b, src.length)), n,
                   "inserted range valid")
            sub = {k: Splice(x, I(0), a, x, I(0))
                   for k, x in src.arrs.items()}
            st.put(lv, v.splice(p, p, sub, Sub(b, a)))
        else:
            ex.obl(st, "bounds", Le(0, xs[1]), n, "insert count")
            st.put(lv, v.splice(p, p, v.konst(xs[2]), xs[1]))
        return [(st, SIter(lv, p))]

    def vec_resize(self, ex, st, lv, v, vs, ats, n):
        k = self._v(st, vs[0])
        if len(vs) > 1:
            d = self._v(st, vs[1])
        else:
            d = ex.default_value(st, v.shape.elem)
            if d is None:
                d = ex.construct(st, ex.find_class(v.shape.elem), "void ()",
                                 [], n)[0][1]
        g = v.konst(d)
        more = Max(I(0), Sub(k, v.length))
        st.put(lv, Vec(v.shape, k, {
            key: Splice(a, v.length, v.length, g[key], more)
            for key, a in v.arrs.items()}))
        return [(st, None)]

    def vec_swap(self, ex, st, lv, v, vs, ats, n):
        o = st.load(vs[0])
        st.put(vs[0], v)
        st.put(lv, o)
        return [(st, None)]

    def vec_assign_op(self, ex, st, lv, v, vs, ats, n):
        st.put(lv, self._v(st, vs[0]))
        return [(st, lv)]

    def vec_fill(self, ex, st, lv, v, vs, ats, n):
        # std::array::fill
        st.put(lv, Vec(v.shape, v.length, v.konst(self._v(st, vs[0])),
                       v.fixed))
        return [(st, None)]
