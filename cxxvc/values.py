"""Values, lvalues and program states of the symbolic executor."""
import itertools
import re

from .terms import *

_cell = itertools.count(1)


class Unsupported(Exception):
    """construct outside the verifier's reach: the function is *undecided*"""


class _Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = _Uninit()


class _Default:
    def __repr__(self):
        return "DEFAULT"


DEFAULT = _Default()


class Rec:
    """value of a class type (immutable)"""
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def get(self, st, p):
        return self.f[p]

    def set(self, st, p, v):
        g = dict(self.f)
        g[p] = v
        return Rec(self.cls, g)

    def leaves(self):
        return list(self.f.keys())

    def __repr__(self):
        return "%s{%s}" % (self.cls, ", ".join(
            "%s=%r" % kv for kv in self.f.items()))


class Bits:
    """std::bitset<N>"""
    __slots__ = ("b",)

    def __init__(self, b):
        self.b = tuple(b)

    def get(self, st, p):
        i = p[1]
        if i.op == "int":
            return self.b[cv(i)]
        r = FALSE
        for k, x in enumerate(self.b):
            r = Ite(Eq(i, k), x, r)
        return r

    def set(self, st, p, v):
        i = p[1]
        if i.op == "int":
            return Bits(v if k == cv(i) else x for k, x in enumerate(self.b))
        return Bits(Ite(Eq(i, k), v, x) for k, x in enumerate(self.b))

    def __repr__(self):
        return "Bits%r" % (self.b,)


class LV:
    """lvalue: a cell and an access path"""
    __slots__ = ("cell", "path")

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, tuple(path)

    def sub(self, p):
        return LV(self.cell, self.path + (p,))

    def __eq__(self, o):
        return isinstance(o, LV) and self.cell == o.cell and \
            self.path == o.path

    def __hash__(self):
        return hash((self.cell, self.path))

    def __repr__(self):
        return "LV(%s%s)" % (self.cell, "".join(".%s" % (p,)
                                                for p in self.path))


class Ptr:
    """pointer to a known object, or null"""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.lv == o.lv

    def __hash__(self):
        return hash(self.lv)

    def __repr__(self):
        return "Ptr(%r)" % (self.lv,)


class Proxy:
    """std::bitset<N>::reference and the like"""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class SIter:
    """iterator into a random-access sequence held in an lvalue"""
    __slots__ = ("lv", "i", "rev")

    def __init__(self, lv, i, rev=False):
        self.lv, self.i, self.rev = lv, i, rev

    def __repr__(self):
        return "SIter(%r,%r%s)" % (self.lv, self.i, ",rev" if self.rev else "")


class ListRef:
    """a std::list: its elements live in a sequence cell of the store, which
    iterators name; copying the object copies the cell, moving hands it over"""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv

    def __eq__(self, o):
        return isinstance(o, ListRef) and self.lv == o.lv

    def __hash__(self):
        return hash(self.lv)

    def same(self, o):
        return self == o

    def __repr__(self):
        return "ListRef(%r)" % (self.lv,)

    def method(self, ex, st, lv, name, vs, ats, n):
        return ex.lib.list_method(ex, st, lv, self, name, vs, ats, n)

    def operator(self, ex, st, op, vs, ats, n):
        return ex.lib.list_operator(ex, st, op, vs, ats, n)


def relocate(v, cell, f):
    """v after the elements of list `cell` moved: position i is now f(i)"""
    if isinstance(v, SIter):
        if v.lv.cell == cell and not v.lv.path:
            return SIter(v.lv, f(v.i), v.rev)
        return SIter(relocate(v.lv, cell, f), v.i, v.rev)
    if isinstance(v, LV):
        if v.cell == cell and v.path and v.path[0][0] == "at":
            return LV(cell, (("at", f(v.path[0][1])),) + v.path[1:])
        return v
    if isinstance(v, Ptr):
        return v if v.lv is None else Ptr(relocate(v.lv, cell, f))
    if isinstance(v, Proxy):
        return Proxy(relocate(v.lv, cell, f))
    if isinstance(v, Rec):
        g = {k: relocate(x, cell, f) for k, x in v.f.items()}
        if all(g[k] is v.f[k] for k in g):
            return v
        return Rec(v.cls, g)
    if isinstance(v, Closure):
        return Closure(v.func, {k: relocate(x, cell, f)
                                for k, x in v.env.items()},
                       relocate(v.this, cell, f))
    if hasattr(v, "relocate"):
        return v.relocate(cell, f)
    return v


class Closure:
    __slots__ = ("func", "env", "this")

    def __init__(self, func, env, this):
        self.func, self.env, self.this = func, env, this


class FnRef:
    __slots__ = ("decl", "name", "type")

    def __init__(self, decl, name, type):
        self.decl, self.name, self.type = decl, name, type


class State:
    __slots__ = ("store", "pc", "env", "this", "trace", "types", "abs",
                 "moves")

    def __init__(self):
        self.store, self.pc, self.env, self.this = {}, [], {}, None
        self.trace = []
        self.types = {}
        self.abs = {}
        self.moves = ()         # (list cell, position map), in order

    def copy(self):
        s = State()
        s.store = dict(self.store)
        s.pc = list(self.pc)
        s.env = dict(self.env)
        s.this = self.this
        s.trace = list(self.trace)
        s.types = self.types
        s.abs = self.abs
        s.moves = self.moves
        return s

    def move(self, cell, f):
        """the elements of list `cell` moved: every iterator, reference and
        pointer into it follows"""
        for c, v in self.store.items():
            self.store[c] = relocate(v, cell, f)
        self.env = {k: relocate(v, cell, f) for k, v in self.env.items()}
        self.this = relocate(self.this, cell, f)
        self.moves = self.moves + ((cell, f),)

    def since(self, v, k):
        """a value held outside the state, brought up to date with the moves
        made since there were k of them"""
        for cell, f in self.moves[k:]:
            if isinstance(v, dict):
                v = {i: relocate(x, cell, f) for i, x in v.items()}
            elif isinstance(v, (list, tuple)):
                v = [relocate(x, cell, f) for x in v]
            else:
                v = relocate(v, cell, f)
        return v

    def assume(self, t):
        t = coerce(t)
        if t.op == "and":
            for x in t.args:
                self.assume(x)
        elif not (t.op == "bool" and cv(t)):
            if t not in self.pc:
                self.pc.append(t)

    def alloc(self, v, typ=None):
        c = next(_cell)
        self.store[c] = v
        self.types[c] = typ
        return LV(c)

    # ------------------------------------------------------ load / store
    def load(self, lv):
        v = self.store[lv.cell]
        for p in lv.path:
            v = self._get(v, p)
        return v

    def _get(self, v, p):
        if isinstance(v, T) and v.sort == "Str":
            if p[0] == "at":
                return Code(v, p[1])
        if hasattr(v, "get"):
            return v.get(self, p)
        raise Unsupported("access %r of %r" % (p, v))

    def put(self, lv, val):
        self.store[lv.cell] = self._put(self.store[lv.cell], lv.path, val)

    def _put(self, v, path, val):
        if not path:
            return val
        p = path[0]
        if isinstance(v, T) and v.sort == "Str" and p[0] == "at":
            return Upd(v, p[1], val)
        if hasattr(v, "set"):
            return v.set(self, p, self._put(v.get(self, p) if len(path) > 1
                                            else None, path[1:], val))
        raise Unsupported("store %r of %r" % (p, v))


# ---------------------------------------------------------------- types
_INT = {"int": (True, 32), "unsigned int": (False, 32), "long": (True, 64),
        "unsigned long": (False, 64), "short": (True, 16),
        "unsigned short": (False, 16), "long long": (True, 64),
        "unsigned long long": (False, 64), "signed char": (True, 8),
        "std::size_t": (False, 64), "size_t": (False, 64),
        "std::ptrdiff_t": (True, 64), "ptrdiff_t": (True, 64),
        "size_type": (False, 64), "difference_type": (True, 64),
        "std::string::size_type": (False, 64), "ST": (False, 64),
        "std::size_type": (False, 64), "int32_t": (True, 32),
        "streamsize": (True, 64), "std::streamsize": (True, 64)}


def norm(t):
    t = t.strip()
    while t.endswith("&"):
        t = t[:-1].strip()
    ch = True
    while ch:
        ch = False
        for p in ("const ", "volatile ", "struct ", "class ", "enum ",
                  "typename "):
            if t.startswith(p):
                t = t[len(p):].strip()
                ch = True
        for s in (" const", " volatile"):
            if t.endswith(s) and not t.endswith("* const"):
                t = t[:-len(s)].strip()
                ch = True
    if t.endswith("* const"):
        t = t[:-6].strip()
    if t in ("std::string", "string", "std::basic_string<char>",
             "basic_string<char>", "std::__cxx11::basic_string<char>",
             "std::__cxx11::string") or t.startswith(
                 ("std::basic_string<char,",
                  "std::__cxx11::basic_string<char,")):
        return "string"
    if t in ("char", "std::string::value_type", "value_type"):
        return "char"
    if t in ("_Bool",):
        return "bool"
    return t


def isref(t):
    return t.rstrip().endswith("&")


def int_info(t):
    return _INT.get(t)
