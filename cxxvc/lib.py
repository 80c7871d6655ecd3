"""Assumed contracts of the C++ standard library (the trusted library model).

Every entry states what the standard says the operation does, over the
mathematical strings / integers of the term language.  Nothing of lanl/FLPR is
modelled here.
"""
import re

from .exec import ListVal
from .smt import inset
from .strlib import *
from .terms import *
from .values import *
from .seq import Vec, VecMethods, vec_elem, targs
from .lists import ListMethods

MAXS = I((1 << 62) - 1)
CTYPE = {"isdigit": DIGITS, "isspace": WS, "isalpha": ALPHA,
         "isalnum": ALPHA + DIGITS, "isupper": UPPER, "islower": LOWER,
         "isblank": " \t", "isxdigit": DIGITS + "abcdefABCDEF",
         "ispunct": "".join(chr(c) for c in range(33, 127)
                            if not chr(c).isalnum()),
         "isprint": "".join(chr(c) for c in range(32, 127)),
         "isgraph": "".join(chr(c) for c in range(33, 127)),
         "iscntrl": "".join(chr(c) for c in range(0, 32)) + "\x7f"}


def byte_of(x):
    """byte term of a promoted char argument"""
    if x.op == "sx":
        return x.args[0]
    if x.op == "int" and -128 <= cv(x) <= 255:
        return I(cv(x) % 256)
    if x.op in ("code",):
        return x
    return None


def litset(v):
    """constant character set of a char-array argument"""
    if isinstance(v, T) and v.op == "str":
        return cv(v)
    raise Unsupported("non-constant character set")


def at(st, v):
    return st.load(v) if isinstance(v, LV) else v


class Lib(VecMethods, ListMethods):
    """std:: model; subclasses add project-specific container abstractions"""

    def __init__(self):
        pass

    # ---------------------------------------------------------- hooks
    def symbolic(self, ex, st, t, hint):
        if t in ("std::ostream", "std::basic_ostream<char>", "ostream"):
            return Rec("std::ostream", {"text": fresh(hint + "_text", "Str"),
                                        "width": I(0),
                                        "left": fresh(hint + "_left", "Bool")})
        e = vec_elem(t)
        if e is not None:
            if "array<" in t:
                return self.std_array(ex, st, e, t, hint)
            return Vec.symbolic(ex, st, e, hint)
        return self.list_symbolic(ex, st, t, hint)

    def std_array(self, ex, st, e, t, hint):
        v = Vec.symbolic(ex, st, e, hint, I(int(re.sub(
            r"[UL]", "", targs(t)[1]))))
        v.fixed = True
        return v

    def default(self, ex, st, t):
        e = vec_elem(t)
        if e is not None:
            if "array<" in t:
                # elements of an uninitialised std::array are indeterminate
                return self.std_array(ex, st, e, t, "array")
            return Vec.empty(ex, st, e)
        return self.list_default(ex, st, t)

    def static_ok(self, ex, d):
        return "const" in d["type"]["qualType"]

    def enum_const(self, ex, d):
        return None

    def global_var(self, ex, st, d):
        if d["name"] == "left" and "fmtflags" in d["type"]["qualType"]:
            return S("left")
        if d["name"] in ("cerr", "clog", "cout"):
            # what is printed there is not observed
            return st.alloc(Rec("std::ostream", {
                "text": S(""), "width": I(0), "left": FALSE}))
        return None

    def knows(self, name):
        return name in CTYPE or hasattr(self, "c_" + name) or name in (
            "toupper", "tolower", "__assert_fail") or \
            name.startswith("operator")

    def pre_call(self, ex, st, did, name, typ, vs, ats, n):
        return None

    def pre_method(self, ex, st, lv, name, vs, ats, f, n):
        return None

    def pre_operator(self, ex, st, name, vs, ats, f, n):
        return None

    # ---------------------------------------------------------- construct
    def construct(self, ex, st, t, ct, vs, ats, n):
        vs = list(vs)
        if t == "string":
            while vs and vs[-1] is DEFAULT:
                vs.pop()
            if vs and "allocator" in ats[len(vs) - 1]:
                vs.pop()
            if not vs:
                return [(st, S(""))]
            a = at(st, vs[0])
            if len(vs) == 1:
                if isinstance(a, T) and a.sort == "Str":
                    return [(st, a)]
                if isinstance(a, ListVal):
                    return [(st, Concat(*[Chr(x) for x in a.xs]))]
            if isinstance(a, SIter):
                b = at(st, vs[1])
                return [(st, self.range_str(ex, st, a, b, n))]
            if isinstance(a, T) and a.sort == "Str":
                p = at(st, vs[1])
                k = at(st, vs[2]) if len(vs) > 2 else NPOS
                if "char" in ats[0] and "*" in ats[0]:
                    return [(st, Substr(a, 0, p))]
                return self.substr(ex, st, a, p, k, n)
            if isinstance(a, T) and a.sort == "Int" and len(vs) == 2:
                return self.rep(ex, st, at(st, vs[1]), a, n,
                                lambda s, r: (s, r))
        e = vec_elem(t)
        if e is not None:
            while vs and (vs[-1] is DEFAULT or
                          "allocator" in ats[len(vs) - 1]):
                vs.pop()
            if not vs:
                return [(st, self.default(ex, st, t))]
            a = at(st, vs[0])
            if isinstance(a, Vec) and len(vs) == 1:
                return [(st, a)]
            if isinstance(a, SIter):
                b = at(st, vs[1])
                src = st.load(a.lv)
                v = Vec.empty(ex, st, e)
                return [(st, v.splice(I(0), I(0), {
                    k: Splice(x, I(0), a.i, x, I(0))
                    for k, x in src.arrs.items()}, Sub(b.i, a.i)))]
            if isinstance(a, T) and a.sort == "Int":
                d = at(st, vs[1]) if len(vs) > 1 else \
                    ex.default_value(st, e)
                if d is not None:
                    v = Vec.empty(ex, st, e)
                    return [(st, Vec(v.shape, a, v.konst(d)))]
            raise Unsupported("vector constructor")
        r = self.list_construct(ex, st, t, ct, vs, ats, n)
        if r is not None:
            return r
        if re.match(r"(std::)?bitset<", t):
            if not vs:
                return [(st, ex.default_value(st, t))]
            v = at(st, vs[0])
            if isinstance(v, Bits):
                return [(st, v)]
        if t.startswith("std::") and ("error" in t or "exception" in t):
            return [(st, Rec(t, {}))]
        if len(vs) == 1 and (ex.find_class(t) is None or
                             isinstance(at(st, vs[0]), Closure)):
            v = at(st, vs[0])
            if isinstance(v, (SIter, Closure, Ptr)):
                if isinstance(v, SIter) and "reverse_iterator" in t and \
                        not v.rev:
                    return [(st, SIter(v.lv, v.i, True))]
                return [(st, v)]
            if isinstance(v, Proxy):
                return [(st, v)]
        return None

    def range_str(self, ex, st, a, b, n):
        if a.rev or b.rev or a.lv != b.lv:
            raise Unsupported("string from foreign iterators")
        s = st.load(a.lv)
        ex.obl(st, "bounds", And(Le(0, a.i), Le(a.i, b.i), Le(b.i, Len(s))), n,
               "iterator range valid")
        return Slice(s, a.i, b.i)

    def rep(self, ex, st, c, k, n, then):
        """n copies of c; std::length_error when n is absurd"""
        out = []
        for s, ok in ex.fork(st, Le(k, MAXS)):
            if ok:
                out.append(then(s, Repeat(c, k)))
            else:
                ex.throw(s, "std::length_error", n)
        return out

    def substr(self, ex, st, s, pos, cnt, n):
        out = []
        for s1, ok in ex.fork(st, Le(pos, Len(s))):
            if not ok:
                ex.throw(s1, "std::out_of_range", n)
                continue
            out.append((s1, self.cut(ex, s1, s, pos, cnt)))
        return out

    def cut(self, ex, st, s, pos, cnt):
        if cnt == NPOS or cnt is DEFAULT:
            if pos == I(0):
                return s
            return From(s, pos)
        return Substr(s, pos, cnt)

    # ---------------------------------------------------------- objects
    def deref(self, ex, st, v, n):
        if isinstance(v, SIter):
            s = st.load(v.lv)
            i = Sub(v.i, 1) if v.rev else v.i
            ex.obl(st, "bounds", And(Le(0, i), Lt(i, self.seq_len(st, s))), n,
                   "iterator dereference in bounds")
            return v.lv.sub(("at", i))
        raise Unsupported("dereference of %r" % (v,))

    def seq_len(self, st, s):
        if isinstance(s, T) and s.sort == "Str":
            return Len(s)
        if hasattr(s, "length"):
            return s.length
        raise Unsupported("length of %r" % (s,))

    def advance(self, ex, st, v, d, n):
        if isinstance(v, SIter):
            d = coerce(d)
            r = SIter(v.lv, Sub(v.i, d) if v.rev else Add(v.i, d), v.rev)
            return self.list_step(ex, st, r, n) if self.is_list(ex, v) else r
        raise Unsupported("advance of %r" % (v,))

    def obj_binop(self, ex, st, op, x, y, n):
        if isinstance(x, SIter) and isinstance(y, SIter):
            if x.lv != y.lv or x.rev != y.rev:
                raise Unsupported("comparison of foreign iterators")
            a, b = (y.i, x.i) if x.rev else (x.i, y.i)
            return {"==": lambda: Eq(a, b), "!=": lambda: Ne(a, b),
                    "<": lambda: Lt(a, b), ">": lambda: Lt(b, a),
                    "<=": lambda: Le(a, b), ">=": lambda: Le(b, a),
                    "-": lambda: Sub(a, b)}[op]()
        if isinstance(x, SIter) and isinstance(y, T) and op in ("+", "-"):
            return self.advance(ex, st, x, y if op == "+" else Neg(y), n)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and op in ("==", "!="):
            if x.lv is None or y.lv is None:
                e = B(x.lv is None and y.lv is None)
            else:
                e = B(x.lv == y.lv)
            return e if op == "==" else Not(e)
        raise Unsupported("operator %s on %r, %r" % (op, x, y))

    def subscript(self, ex, st, x, i, n):
        if isinstance(x, T) and x.op == "str":
            return Code(x, i)
        raise Unsupported("subscript")

    # ---------------------------------------------------------- free calls
    def call(self, ex, st, name, vs, ats, n):
        xs = [at(st, v) for v in vs]
        if name in CTYPE and len(xs) == 1:
            b = byte_of(xs[0])
            if b is not None:
                return [(st, Ite(inset(b, CTYPE[name]), I(1), I(0)))]
            return [(st, Ite(CodeIn(xs[0], CTYPE[name]), I(1), I(0)))]
        if name in ("toupper", "tolower") and len(xs) == 1:
            k = name[2:]
            b = byte_of(xs[0])
            if b is not None:
                return [(st, SX(CaseC(k, b)))]
            return [(st, CaseC(k, xs[0]))]
        m = getattr(self, "c_" + name, None)
        if m:
            return m(ex, st, vs, xs, n)
        return None

    def c_min(self, ex, st, vs, xs, n):
        if isinstance(xs[0], ListVal):
            raise Unsupported("min(initializer_list)")
        return [(st, Ite(Lt(xs[1], xs[0]), xs[1], xs[0]))]

    def c_max(self, ex, st, vs, xs, n):
        return [(st, Ite(Lt(xs[0], xs[1]), xs[1], xs[0]))]

    def c_swap(self, ex, st, vs, xs, n):
        st.put(vs[0], xs[1])
        st.put(vs[1], xs[0])
        return [(st, None)]

    def c_move(self, ex, st, vs, xs, n):
        return [(st, vs[0])]

    c_forward = c_move
    c_addressof = None

    def c_to_string(self, ex, st, vs, xs, n):
        x = xs[0]
        out = []
        for s, nn in ex.fork(st, Le(0, x)):
            out.append((s, FromInt(x) if nn else
                        Concat("-", FromInt(Neg(x)))))
        return out

    def c_advance(self, ex, st, vs, xs, n):
        st.put(vs[0], self.advance(ex, st, xs[0], xs[1], n))
        return [(st, None)]

    def c_distance(self, ex, st, vs, xs, n):
        if self.is_list(ex, xs[0]) and xs[0].lv == xs[1].lv:
            ex.obl(st, "bounds", And(Le(0, xs[0].i), Le(xs[0].i, xs[1].i), Le(
                xs[1].i, st.load(xs[1].lv).length)), n,
                "the second list iterator can be reached from the first")
        return [(st, self.obj_binop(ex, st, "-", xs[1], xs[0], n))]

    def c_next(self, ex, st, vs, xs, n):
        d = xs[1] if len(xs) > 1 and xs[1] is not DEFAULT else I(1)
        return [(st, self.advance(ex, st, xs[0], d, n))]

    def c_prev(self, ex, st, vs, xs, n):
        d = xs[1] if len(xs) > 1 and xs[1] is not DEFAULT else I(1)
        return [(st, self.advance(ex, st, xs[0], Neg(d), n))]

    def c_exit(self, ex, st, vs, xs, n):
        return []

    c_abort = c_exit

    def c_setw(self, ex, st, vs, xs, n):
        return [(st, Rec("setw", {"w": xs[0]}))]

    def pred_set(self, ex, st, f, n):
        """characters on which a unary predicate object is true"""
        c = fresh("pc", "Int")
        rec, ex.record = ex.record, False
        s = st.copy()
        try:
            rs = ex.call_value(s, f, [c], n)
        finally:
            ex.record = rec
        if len(rs) != 1:
            raise Unsupported("branching predicate")
        p = ex.truth(ex.rv(*rs[0]))
        sub = set()
        subterms(p, sub)
        if any(x.op == "var" and x != c for x in sub):
            raise Unsupported("predicate with captures")
        return "".join(chr(k) for k in range(256)
                       if subst(p, {c: I(k)}) == TRUE)

    def _find_if(self, ex, st, vs, xs, n, neg):
        a, b, f = xs
        cs = self.pred_set(ex, st, f, n)
        if neg:
            cs = comp(cs)
        if a.lv != b.lv or a.rev != b.rev:
            raise Unsupported("foreign iterators")
        s = st.load(a.lv)
        r = fresh("it", "Int")
        out = comp(cs)
        if not a.rev:
            ex.obl(st, "bounds", And(Le(0, a.i), Le(a.i, b.i),
                                     Le(b.i, Len(s))), n, "range valid")
            st.assume(And(Le(a.i, r), Le(r, b.i), AllIn(s, a.i, r, out)))
            st.assume(Or(Eq(r, b.i), inset(Code(s, r), cs)))
        else:
            ex.obl(st, "bounds", And(Le(0, b.i), Le(b.i, a.i),
                                     Le(a.i, Len(s))), n, "range valid")
            st.assume(And(Le(b.i, r), Le(r, a.i), AllIn(s, r, a.i, out)))
            st.assume(Or(Eq(r, b.i), inset(Code(s, Sub(r, 1)), cs)))
        return [(st, SIter(a.lv, r, a.rev))]

    def c_find_if_not(self, ex, st, vs, xs, n):
        return self._find_if(ex, st, vs, xs, n, True)

    def c_find_if(self, ex, st, vs, xs, n):
        return self._find_if(ex, st, vs, xs, n, False)

    def c_all_of(self, ex, st, vs, xs, n):
        a, b, f = xs
        cs = self.pred_set(ex, st, f, n)
        if a.rev or a.lv != b.lv:
            raise Unsupported("all_of")
        return [(st, AllIn(st.load(a.lv), a.i, b.i, cs))]

    def c_none_of(self, ex, st, vs, xs, n):
        a, b, f = xs
        cs = comp(self.pred_set(ex, st, f, n))
        return [(st, AllIn(st.load(a.lv), a.i, b.i, cs))]

    def c_any_of(self, ex, st, vs, xs, n):
        a, b, f = xs
        cs = comp(self.pred_set(ex, st, f, n))
        return [(st, Not(AllIn(st.load(a.lv), a.i, b.i, cs)))]

    # ---------------------------------------------------------- methods
    def method(self, ex, st, lv, name, vs, ats, n):
        v = st.load(lv)
        if isinstance(v, T) and v.sort == "Str":
            m = getattr(self, "str_" + name.replace("operator", "op_")
                        .replace("[]", "index").replace("+=", "pluseq")
                        .replace("=", "assign"), None)
            if m is None:
                return None
            ex.lib_used.add("std::string::" + name)
            vs = list(vs)
            while vs and vs[-1] is DEFAULT:
                vs.pop()
            return m(ex, st, lv, v, vs, ats, n)
        if isinstance(v, Bits):
            m = getattr(self, "bits_" + name, None)
            return m(ex, st, lv, v, [at(st, x) for x in vs], n) if m else None
        if isinstance(v, Proxy):
            if name == "operator bool":
                return [(st, st.load(v.lv))]
        if isinstance(v, SIter):
            if name == "operator=" and isinstance(at(st, vs[0]), SIter):
                st.put(lv, at(st, vs[0]))
                return [(st, lv)]
            if name == "base":
                return [(st, SIter(v.lv, v.i, not v.rev))]
        if isinstance(v, Rec) and v.cls == "std::ostream":
            m = getattr(self, "os_" + name, None)
            return m(ex, st, lv, v, vs, n) if m else None
        if isinstance(v, Vec):
            return self.vec_method(ex, st, lv, v, name, vs, ats, n)
        if hasattr(v, "method"):
            return v.method(ex, st, lv, name, vs, ats, n)
        return None

    def os_setf(self, ex, st, lv, v, vs, n):
        # std::ios_base::setf(f): adds f, returns the previous flags
        x = at(st, vs[0])
        old = v.f["left"]
        if isinstance(x, T) and x.op == "str":
            st.put(lv.sub("left"), TRUE)
        elif isinstance(x, Rec) and x.cls == "fmtflags":
            st.put(lv.sub("left"), Or(old, x.f["left"]))
        else:
            raise Unsupported("setf")
        return [(st, Rec("fmtflags", {"left": old}))]

    def os_flags(self, ex, st, lv, v, vs, n):
        old = v.f["left"]
        if vs:
            st.put(lv.sub("left"), at(st, vs[0]).f["left"])
        return [(st, Rec("fmtflags", {"left": old}))]

    # ------------------------------------------------------- std::string
    def str_size(self, ex, st, lv, s, vs, ats, n):
        return [(st, Len(s))]

    str_length = str_size

    def str_empty(self, ex, st, lv, s, vs, ats, n):
        return [(st, Eq(Len(s), 0))]

    def str_clear(self, ex, st, lv, s, vs, ats, n):
        st.put(lv, S(""))
        return [(st, None)]

    def str_op_index(self, ex, st, lv, s, vs, ats, n):
        i = at(st, vs[0])
        ex.obl(st, "bounds", Le(i, Len(s)), n,
               "string subscript within [0, size()]")
        return [(st, lv.sub(("at", i)))]

    def str_at(self, ex, st, lv, s, vs, ats, n):
        i = at(st, vs[0])
        out = []
        for s1, ok in ex.fork(st, Lt(i, Len(s))):
            if ok:
                out.append((s1, lv.sub(("at", i))))
            else:
                ex.throw(s1, "std::out_of_range", n)
        return out

    def str_back(self, ex, st, lv, s, vs, ats, n):
        ex.obl(st, "bounds", Lt(0, Len(s)), n, "back() of a non-empty string")
        return [(st, lv.sub(("at", Sub(Len(s), 1))))]

    def str_front(self, ex, st, lv, s, vs, ats, n):
        ex.obl(st, "bounds", Lt(0, Len(s)), n, "front() of a non-empty string")
        return [(st, lv.sub(("at", I(0))))]

    def str_substr(self, ex, st, lv, s, vs, ats, n):
        p = at(st, vs[0]) if vs else I(0)
        c = at(st, vs[1]) if len(vs) > 1 else NPOS
        return self.substr(ex, st, s, p, c, n)

    def _set(self, st, v):
        v = at(st, v)
        if v.sort == "Int":
            if v.op != "int":
                raise Unsupported("search for a non-constant character")
            return chr(cv(v) % 256)
        return litset(v)

    def _find(self, ex, st, s, chars, vs):
        p = at(st, vs[1]) if len(vs) > 1 else I(0)
        return [(st, FirstIn(s, p, chars))]

    def str_find_first_not_of(self, ex, st, lv, s, vs, ats, n):
        return self._find(ex, st, s, comp(self._set(st, vs[0])), vs)

    def str_find_first_of(self, ex, st, lv, s, vs, ats, n):
        return self._find(ex, st, s, self._set(st, vs[0]), vs)

    def str_find(self, ex, st, lv, s, vs, ats, n):
        c = self._set(st, vs[0])
        if len(c) != 1:
            raise Unsupported("find of a multi-character string")
        return self._find(ex, st, s, c, vs)

    def str_find_last_not_of(self, ex, st, lv, s, vs, ats, n):
        if len(vs) > 1:
            raise Unsupported("find_last_not_of with position")
        return [(st, LastIn(s, comp(self._set(st, vs[0]))))]

    def str_find_last_of(self, ex, st, lv, s, vs, ats, n):
        if len(vs) > 1:
            raise Unsupported("find_last_of with position")
        return [(st, LastIn(s, self._set(st, vs[0])))]

    def str_rfind(self, ex, st, lv, s, vs, ats, n):
        c = self._set(st, vs[0])
        if len(vs) > 1 or len(c) != 1:
            raise Unsupported("rfind")
        return [(st, LastIn(s, c))]

    def _pos(self, ex, st, s, p, n):
        """states with p <= size, others throw out_of_range"""
        out = []
        for s1, ok in ex.fork(st, Le(p, Len(s))):
            if ok:
                out.append(s1)
            else:
                ex.throw(s1, "std::out_of_range", n)
        return out

    def _splice(self, s, a, b, mid):
        """replace s[a,b) by mid"""
        return Concat(Substr(s, 0, a), mid, From(s, b))

    def str_erase(self, ex, st, lv, s, vs, ats, n):
        xs = [at(st, v) for v in vs]
        if xs and isinstance(xs[0], SIter):
            a = xs[0].i
            if len(xs) > 1:
                b = xs[1].i
                ex.obl(st, "bounds", And(Le(0, a), Le(a, b), Le(b, Len(s))),
                       n, "erase range valid")
            else:
                b = Add(a, 1)
                ex.obl(st, "bounds", And(Le(0, a), Lt(a, Len(s))), n,
                       "erase position valid")
            st.put(lv, self._splice(s, a, b, S("")))
            return [(st, SIter(lv, a))]
        p = xs[0] if xs else I(0)
        c = xs[1] if len(xs) > 1 else NPOS
        out = []
        for s1 in self._pos(ex, st, s, p, n):
            if c == NPOS:
                r = Substr(s, 0, p)
            else:
                e = Min(c, Sub(Len(s), p))
                if ex.known(s1, Le(c, Sub(Len(s), p))):
                    e = c
                r = self._splice(s, p, Add(p, e), S(""))
            s1.put(lv, r)
            out.append((s1, lv))
        return out

    def str_insert(self, ex, st, lv, s, vs, ats, n):
        xs = [at(st, v) for v in vs]
        if isinstance(xs[0], SIter):
            p = xs[0].i
            ex.obl(st, "bounds", And(Le(0, p), Le(p, Len(s))), n,
                   "insert position valid")
            if len(xs) == 2:
                st.put(lv, self._splice(s, p, p, Chr(xs[1])))
                return [(st, SIter(lv, p))]
            if isinstance(xs[1], SIter):
                mid = self.range_str(ex, st, xs[1], xs[2], n)
                st.put(lv, self._splice(s, p, p, mid))
                return [(st, SIter(lv, p))]

            def then(s1, r):
                s1.put(lv, self._splice(s, p, p, r))
                return (s1, SIter(lv, p))
            return self.rep(ex, st, xs[2], xs[1], n, then)
        p = xs[0]
        out = []
        for s1 in self._pos(ex, st, s, p, n):
            if xs[1].sort == "Str":
                mid = xs[1]
                if len(xs) == 3 and "*" in ats[1]:
                    mid = Substr(mid, 0, xs[2])
                elif len(xs) > 2:
                    raise Unsupported("insert(pos,str,pos2,..)")
                s1.put(lv, self._splice(s, p, p, mid))
                out.append((s1, lv))
            else:
                def then(s2, r):
                    s2.put(lv, self._splice(s, p, p, r))
                    return (s2, lv)
                out.extend(self.rep(ex, s1, xs[2], xs[1], n, then))
        return out

    def _newtext(self, ex, st, vs, ats, n, then):
        xs = [at(st, v) for v in vs]
        if isinstance(xs[0], SIter):
            return [then(st, self.range_str(ex, st, xs[0], xs[1], n))]
        if xs[0].sort == "Str":
            if len(xs) == 1:
                return [then(st, xs[0])]
            if len(xs) == 2 and "*" in ats[0]:
                return [then(st, Substr(xs[0], 0, xs[1]))]
            out = []
            for s1 in self._pos(ex, st, xs[0], xs[1], n):
                c = xs[2] if len(xs) > 2 else NPOS
                out.append(then(s1, self.cut(ex, s1, xs[0], xs[1], c)))
            return out
        return self.rep(ex, st, xs[1], xs[0], n, then)

    def str_append(self, ex, st, lv, s, vs, ats, n):
        def then(s1, r):
            s1.put(lv, Concat(s, r))
            return (s1, lv)
        return self._newtext(ex, st, vs, ats, n, then)

    def str_assign(self, ex, st, lv, s, vs, ats, n):
        def then(s1, r):
            s1.put(lv, r)
            return (s1, lv)
        return self._newtext(ex, st, vs, ats, n, then)

    def str_op_assign(self, ex, st, lv, s, vs, ats, n):
        x = at(st, vs[0])
        st.put(lv, x if x.sort == "Str" else Chr(x))
        return [(st, lv)]

    def str_op_pluseq(self, ex, st, lv, s, vs, ats, n):
        x = at(st, vs[0])
        st.put(lv, Concat(s, x if x.sort == "Str" else Chr(x)))
        return [(st, lv)]

    def str_push_back(self, ex, st, lv, s, vs, ats, n):
        st.put(lv, Concat(s, Chr(at(st, vs[0]))))
        return [(st, None)]

    def str_pop_back(self, ex, st, lv, s, vs, ats, n):
        ex.obl(st, "bounds", Lt(0, Len(s)), n, "pop_back of non-empty string")
        st.put(lv, Substr(s, 0, Sub(Len(s), 1)))
        return [(st, None)]

    def str_resize(self, ex, st, lv, s, vs, ats, n):
        k = at(st, vs[0])
        c = at(st, vs[1]) if len(vs) > 1 else I(0)

        def then(s1, r):
            s1.put(lv, Ite(Le(k, Len(s)), Substr(s, 0, k), Concat(s, r)))
            return (s1, None)
        return self.rep(ex, st, c, Sub(k, Len(s)), n, then)

    def str_replace(self, ex, st, lv, s, vs, ats, n):
        xs = [at(st, v) for v in vs]
        if isinstance(xs[0], SIter):
            raise Unsupported("replace(iterator)")
        p, c = xs[0], xs[1]
        out = []
        for s1 in self._pos(ex, st, s, p, n):
            e = Add(p, Min(c, Sub(Len(s), p)))
            if xs[2].sort == "Str" and len(xs) == 3:
                s1.put(lv, self._splice(s, p, e, xs[2]))
                out.append((s1, lv))
            elif len(xs) == 4 and xs[2].sort == "Int":
                def then(s2, r):
                    s2.put(lv, self._splice(s, p, e, r))
                    return (s2, lv)
                out.extend(self.rep(ex, s1, xs[3], xs[2], n, then))
            else:
                raise Unsupported("replace overload")
        return out

    def str_swap(self, ex, st, lv, s, vs, ats, n):
        o = st.load(vs[0])
        st.put(vs[0], s)
        st.put(lv, o)
        return [(st, None)]

    def str_c_str(self, ex, st, lv, s, vs, ats, n):
        return [(st, s)]

    str_data = str_c_str

    def str_compare(self, ex, st, lv, s, vs, ats, n):
        xs = [at(st, v) for v in vs]
        if len(xs) == 1:
            d = fresh("cmp", "Int")
            st.assume(Iff(Eq(d, 0), Eq(s, xs[0])))
            return [(st, d)]
        if len(xs) == 3 and xs[2].sort == "Str":
            out = []
            for s1, sub in self.substr(ex, st, s, xs[0], xs[1], n):
                d = fresh("cmp", "Int")
                s1.assume(Iff(Eq(d, 0), Eq(sub, xs[2])))
                out.append((s1, d))
            return out
        raise Unsupported("compare overload")

    def str_begin(self, ex, st, lv, s, vs, ats, n):
        return [(st, SIter(lv, I(0)))]

    def str_end(self, ex, st, lv, s, vs, ats, n):
        return [(st, SIter(lv, Len(s)))]

    str_cbegin, str_cend = str_begin, str_end

    def str_rbegin(self, ex, st, lv, s, vs, ats, n):
        return [(st, SIter(lv, Len(s), True))]

    def str_rend(self, ex, st, lv, s, vs, ats, n):
        return [(st, SIter(lv, I(0), True))]

    def str_reserve(self, ex, st, lv, s, vs, ats, n):
        return [(st, None)]

    # ------------------------------------------------------- std::bitset
    def _bit(self, ex, st, v, i, n):
        out = []
        for s, ok in ex.fork(st, And(Le(0, i), Lt(i, len(v.b)))):
            if ok:
                out.append(s)
            else:
                ex.throw(s, "std::out_of_range", n)
        return out

    def bits_set(self, ex, st, lv, v, xs, n):
        if not xs:
            st.put(lv, Bits([TRUE] * len(v.b)))
            return [(st, lv)]
        val = TRUE
        if len(xs) > 1 and xs[1] is not DEFAULT:
            val = ex.truth(xs[1])
        out = []
        for s in self._bit(ex, st, v, xs[0], n):
            s.put(lv, v.set(s, ("bit", xs[0]), val))
            out.append((s, lv))
        return out

    def bits_reset(self, ex, st, lv, v, xs, n):
        if not xs:
            st.put(lv, Bits([FALSE] * len(v.b)))
            return [(st, lv)]
        out = []
        for s in self._bit(ex, st, v, xs[0], n):
            s.put(lv, v.set(s, ("bit", xs[0]), FALSE))
            out.append((s, lv))
        return out

    def bits_test(self, ex, st, lv, v, xs, n):
        return [(s, v.get(s, ("bit", xs[0])))
                for s in self._bit(ex, st, v, xs[0], n)]

    def bits_flip(self, ex, st, lv, v, xs, n):
        if not xs:
            st.put(lv, Bits(Not(b) for b in v.b))
            return [(st, lv)]
        out = []
        for s in self._bit(ex, st, v, xs[0], n):
            s.put(lv, v.set(s, ("bit", xs[0]),
                            Not(v.get(s, ("bit", xs[0])))))
            out.append((s, lv))
        return out

    def bits_any(self, ex, st, lv, v, xs, n):
        return [(st, Or(*v.b))]

    def bits_none(self, ex, st, lv, v, xs, n):
        return [(st, Not(Or(*v.b)))]

    # ---------------------------------------------------------- operators
    def operator(self, ex, st, name, vs, ats, n):
        xs = [at(st, v) for v in vs]
        a = xs[0]
        op = name[len("operator"):]
        if isinstance(a, Bits):
            if op == "[]":
                i = xs[1]
                ex.obl(st, "bounds", And(Le(0, i), Lt(i, len(a.b))), n,
                       "bitset subscript in bounds")
                if isinstance(vs[0], LV) and \
                        not ats[0].lstrip().startswith("const"):
                    return [(st, Proxy(vs[0].sub(("bit", i))))]
                return [(st, a.get(st, ("bit", i)))]
            if op in ("==", "!="):
                e = And(*[Iff(x, y) for x, y in zip(a.b, xs[1].b)])
                return [(st, e if op == "==" else Not(e))]
            if op == "=":
                st.put(vs[0], xs[1])
                return [(st, vs[0])]
            if op in ("&=", "|=", "^="):
                f = {"&=": And, "|=": Or, "^=": Ne}[op]
                st.put(vs[0], Bits(f(x, y) for x, y in zip(a.b, xs[1].b)))
                return [(st, vs[0])]
        if isinstance(a, Proxy):
            if op == "=":
                b = xs[1]
                if isinstance(b, Proxy):
                    b = st.load(b.lv)
                st.put(a.lv, ex.truth(b))
                return [(st, vs[0])]
        if isinstance(a, T) and a.sort == "Str" or \
                (len(xs) > 1 and isinstance(xs[1], T) and
                 xs[1].sort == "Str" and isinstance(a, T)):
            ex.lib_used.add("std::string::" + name)
            if op in ("[]", "=", "+="):
                return self.method(ex, st, vs[0], name, vs[1:], ats[1:], n)
            if op == "+":
                f = [x if x.sort == "Str" else Chr(x) for x in xs]
                return [(st, Concat(*f))]
            if op in ("==", "!="):
                e = Eq(xs[0], xs[1])
                return [(st, e if op == "==" else Not(e))]
        if isinstance(a, SIter):
            if op in ("==", "!=", "<", ">", "<=", ">="):
                return [(st, self.obj_binop(ex, st, op, a, xs[1], n))]
            if op == "-" or op == "+":
                if isinstance(xs[1], (SIter, T)):
                    return [(st, self.obj_binop(ex, st, op, a, xs[1], n))]
            if op in ("++", "--"):
                new = self.advance(ex, st, a, 1 if op == "++" else -1, n)
                st.put(vs[0], new)
                return [(st, a if len(vs) > 1 else vs[0])]
            if op in ("+=", "-="):
                new = self.advance(ex, st, a, xs[1] if op == "+=" else
                                   Neg(xs[1]), n)
                st.put(vs[0], new)
                return [(st, vs[0])]
            if op == "*":
                return [(st, self.deref(ex, st, a, n))]
            if op == "->":
                return [(st, Ptr(self.deref(ex, st, a, n)))]
            if op == "=":
                st.put(vs[0], xs[1])
                return [(st, vs[0])]
        if isinstance(a, Vec) and op in ("[]", "="):
            return self.vec_method(ex, st, vs[0], a, name, vs[1:], ats[1:], n)
        if isinstance(a, Rec) and a.cls == "std::ostream" and op == "<<":
            return self.os_put(ex, st, vs[0], a, xs[1], ats[1], n)
        if hasattr(a, "operator"):
            return a.operator(ex, st, op, vs, ats, n)
        if isinstance(a, Rec) and a.cls == "fmtflags":
            return None
        return None

    def os_put(self, ex, st, lv, o, x, t, n):
        w = o.f["width"]
        if isinstance(x, Rec) and x.cls == "setw":
            st.put(lv.sub("width"), x.f["w"])
            return [(st, lv)]
        if isinstance(x, T):
            if x.sort == "Int":
                x = Chr(x) if ex.res_type(t) == "char" else FromInt(x)
            elif x.sort == "Bool":
                x = Ite(x, S("1"), S("0"))
            pad = Repeat(32, Sub(w, Len(x)))
            if w == I(0):
                out = x
            else:
                out = Ite(o.f["left"], Concat(x, pad), Concat(pad, x))
            st.put(lv.sub("text"), Concat(o.f["text"], out))
            st.put(lv.sub("width"), I(0))
            return [(st, lv)]
        raise Unsupported("ostream << %r" % (x,))
