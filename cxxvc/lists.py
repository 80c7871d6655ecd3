"""Assumed contracts of std::list: a list is a sequence (as std::vector), its
iterators, references and pointers stay with their elements when others are
inserted or erased."""
import re

from .seq import Vec, Shape, targs
from .terms import *
from .values import *

GONE = I(-(1 << 50))        # position of an erased (or null) iterator
LMAX = 1 << 28              # lists are shorter than this


def elem_name(t):
    t = t.strip()
    for p in ("const ", "class ", "struct "):
        if t.startswith(p):
            t = t[len(p):]
    return t


class Opaque:
    """a list whose elements are not looked at: only its length is known"""

    def __init__(self, elem, n):
        self.elem, self.length = elem, n

    def get(self, st, p):
        if p[0] == "vn":
            return self.length
        raise Unsupported("element of a list of " + self.elem)

    def set(self, st, p, v):
        raise Unsupported("element of a list of " + self.elem)

    def parts(self):
        return [(("vn",), self.length)]

    def same(self, o):
        return isinstance(o, Opaque) and self.length == o.length


class ListMethods:
    def list_elem(self, t):
        m = re.match(r"(?:std::)?(?:__cxx11::)?list<", t)
        return elem_name(targs(t)[0]) if m else None

    def iter_elem(self, t):
        m = re.match(r"(?:std::)?(?:__cxx11::)?_List_(const_)?iterator<", t)
        return elem_name(targs(t)[0]) if m else None

    def list_value(self, ex, st, elem, hint):
        n = fresh(hint + "_n", "Int")
        st.assume(And(Le(0, n), Lt(n, LMAX)))
        try:
            return Vec.symbolic(ex, st, elem, hint, n)
        except Unsupported:
            return Opaque(elem, n)

    def list_symbolic(self, ex, st, t, hint):
        e = self.list_elem(t)
        if e is not None:
            if e in ex.owned:
                ex.world.pop(e, None)
            lv = ex.world_lv(st, e)
            ex.owned.add(e)
            return ListRef(lv)
        e = self.iter_elem(t)
        if e is not None:
            return SIter(ex.world_lv(st, e), fresh(hint, "Int"))
        return None

    def new_list(self, ex, st, v):
        lv = st.alloc(v, "std::list<%s>" % v.shape.elem)
        ex.list_cells.add(lv.cell)
        return ListRef(lv)

    def list_default(self, ex, st, t):
        e = self.list_elem(t)
        if e is not None:
            return self.new_list(ex, st, Vec.empty(ex, st, e))
        e = self.iter_elem(t)
        if e is not None:
            return SIter(ex.world_lv(st, e), GONE)
        return None

    def list_construct(self, ex, st, t, ct, vs, ats, n):
        from .exec import ListVal
        e = self.iter_elem(t)
        if e is not None and not vs:
            return [(st, self.list_default(ex, st, t))]
        e = self.list_elem(t)
        if e is None:
            return None
        vs = list(vs)
        while vs and (vs[-1] is DEFAULT or "allocator" in ats[len(vs) - 1]):
            vs.pop()
        if not vs:
            return [(st, self.list_default(ex, st, t))]
        a = vs[0]
        x = st.load(a) if isinstance(a, LV) else a
        if isinstance(x, ListRef) and len(vs) == 1:
            if "&&" in ct:
                if not isinstance(a, LV):
                    return [(st, x)]
                # the nodes change hands; the source is left empty
                st.put(a, self.new_list(ex, st, Vec.empty(ex, st, e)))
                return [(st, x)]
            return [(st, self.new_list(ex, st, st.load(x.lv)))]
        v = Vec.empty(ex, st, e)
        if isinstance(x, ListVal):
            for y in x.xs:
                w = v.set(st, ("at", v.length), y)
                v = Vec(w.shape, Add(v.length, 1), w.arrs)
            return [(st, self.new_list(ex, st, v))]
        if isinstance(x, SIter):
            b = st.load(vs[1]) if isinstance(vs[1], LV) else vs[1]
            src = st.load(x.lv)
            ex.obl(st, "bounds", And(Le(0, x.i), Le(x.i, b.i),
                                     Le(b.i, src.length)), n,
                   "copied range valid")
            return [(st, self.new_list(ex, st, v.splice(I(0), I(0), {
                k: Splice(y, I(0), x.i, y, I(0))
                for k, y in src.arrs.items()}, Sub(b.i, x.i))))]
        if isinstance(x, T) and x.sort == "Int":
            ex.obl(st, "bounds", Lt(x, LMAX), n, "list of a sane size")
            r = self.new_list(ex, st, v)
            self.vec_resize(ex, st, r.lv, v, [x] + vs[1:], ats, n)
            return [(st, r)]
        raise Unsupported("list constructor " + ct)

    def copied(self, ex, st, v, move=False):
        """member-wise copy of an object value"""
        if isinstance(v, ListRef):
            if move:
                raise Unsupported("implicit move of a list member")
            return self.new_list(ex, st, st.load(v.lv))
        if isinstance(v, Rec):
            g = {k: self.copied(ex, st, x, move) for k, x in v.f.items()}
            if any(g[k] is not v.f[k] for k in g):
                return Rec(v.cls, g)
        return v

    def is_list(self, ex, v):
        return isinstance(v, SIter) and v.lv.cell in ex.list_cells and \
            not v.lv.path

    def list_step(self, ex, st, v, n):
        """an iterator must stay between begin() and end()"""
        ex.obl(st, "bounds", And(Le(0, v.i), Le(
            v.i, st.load(v.lv).length)), n,
            "list iterator stays within the list")
        return v

    def list_operator(self, ex, st, op, vs, ats, n):
        if op == "=":
            return self.list_method(ex, st, vs[0], st.load(vs[0]),
                                    "operator=", vs[1:], ats[1:], n)
        raise Unsupported("list operator " + op)

    def list_method(self, ex, st, lv, ref, name, vs, ats, n):
        vs = list(vs)
        while vs and vs[-1] is DEFAULT:
            vs.pop()
        ex.lib_used.add("std::list::" + name)
        h = ref.lv
        v = st.load(h)
        k0 = len(st.moves)
        xs = [st.load(x) if isinstance(x, LV) else x for x in vs]
        if name == "operator=":
            src = xs[0]
            if not isinstance(src, ListRef):
                raise Unsupported("list assignment")
            if "&&" in _param(ex, n) and isinstance(vs[0], LV):
                # nodes change hands
                if vs[0] != lv:
                    st.put(lv, src)
                    st.put(vs[0], self.new_list(ex, st, Vec.empty(
                        ex, st, v.shape.elem)))
                return [(st, lv)]
            st.put(lv, self.new_list(ex, st, st.load(src.lv)))
            # iterators into the old nodes: not tracked any further
            st.put(h, Opaque(v.shape.elem, I(0)))
            return [(st, lv)]
        if name in ("begin", "cbegin", "end", "cend", "size", "empty",
                    "front", "back"):
            if isinstance(v, Opaque) and name in ("front", "back"):
                raise Unsupported("element of a list of " + v.elem)
            return getattr(self, "vec_" + name)(ex, st, h, v, vs, ats, n)
        if name == "rbegin" or name == "rend":
            return getattr(self, "vec_" + name)(ex, st, h, v, vs, ats, n)
        if isinstance(v, Opaque):
            raise Unsupported("list::%s of %s" % (name, v.elem))
        if name in ("insert", "emplace"):
            p = xs[0].i
            if xs[0].lv != h:
                raise Unsupported("foreign list position")
            outs = []
            if name == "emplace" or len(xs) == 2:
                cur = self.vec_value(ex, st, v.shape.elem, vs[1:], ats[1:],
                                     n) if name == "emplace" else \
                    [(st, xs[1])]
                for s, x in cur:
                    w = s.load(h)
                    q = s.since(xs[0], k0).i
                    self.vec_insert(ex, s, h, w, [SIter(h, q), x], ats, n)
                    self._grow(s, h, q, I(1))
                    outs.append((s, SIter(h, q)))
                return outs
            if isinstance(xs[1], SIter) and xs[1].lv == h:
                raise Unsupported("a list inserted into itself")
            m = Sub(xs[2].i, xs[1].i) if isinstance(xs[1], SIter) else xs[1]
            self.vec_insert(ex, st, h, v, xs, ats, n)
            self._grow(st, h, p, m)
            return [(st, SIter(h, p))]
        if name in ("push_back", "push_front"):
            p = v.length if name == "push_back" else I(0)
            self.vec_insert(ex, st, h, v, [SIter(h, p), xs[0]], ats, n)
            self._grow(st, h, p, I(1))
            return [(st, None)]
        if name in ("emplace_back", "emplace_front"):
            outs = []
            for s, x in self.vec_value(ex, st, v.shape.elem, vs, ats, n):
                w = s.load(h)
                p = w.length if name == "emplace_back" else I(0)
                self.vec_insert(ex, s, h, w, [SIter(h, p), x], ats, n)
                self._grow(s, h, p, I(1))
                outs.append((s, h.sub(("at", p))))
            return outs
        if name == "erase":
            if any(x.lv != h for x in xs):
                raise Unsupported("foreign list position")
            a = xs[0].i
            b = xs[1].i if len(xs) > 1 else Add(a, 1)
            self.vec_erase(ex, st, h, v, xs, ats, n)
            self._drop(st, h, a, b)
            return [(st, SIter(h, a))]
        if name in ("pop_back", "pop_front"):
            ex.obl(st, "bounds", Lt(0, v.length), n,
                   name + " of a non-empty list")
            a = Sub(v.length, 1) if name == "pop_back" else I(0)
            st.put(h, v.splice(a, Add(a, 1), v.arrs, I(0)))
            self._drop(st, h, a, Add(a, 1))
            return [(st, None)]
        if name == "clear":
            nn = v.length
            st.put(h, Vec(v.shape, I(0), v.arrs))
            self._drop(st, h, I(0), nn)
            return [(st, None)]
        if name == "swap":
            o = st.load(vs[0])
            st.put(vs[0], ref)
            st.put(lv, o)
            return [(st, None)]
        raise Unsupported("list::" + name)

    def _grow(self, st, h, p, m):
        st.move(h.cell, lambda i: Ite(Lt(i, p), i, Add(i, m)))

    def _drop(self, st, h, a, b):
        st.move(h.cell, lambda i: Ite(Lt(i, a), i, Ite(
            Lt(i, b), GONE, Sub(i, Sub(b, a)))))


def _param(ex, n):
    """type of the function an operator call names"""
    c = n["inner"][0]
    while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
        c = c["inner"][0]
    d = c.get("referencedDecl") or {}
    return d.get("type", {}).get("qualType", "")
