"""Function contracts: requires / ensures / throws, checked on the body
(`verify`) and used in place of the body at call sites (`apply`)."""
import re
import time

from . import smt
from .ast import ctype
from .exec import Executor, Obligation
from .terms import *
from .values import *
from .seq import Vec


class Clause:
    """a named postcondition; `props` are the properties it carries"""

    def __init__(self, name, term, props=()):
        self.name, self.term, self.props = name, coerce(term), tuple(props)


class RecView:
    """fields of an object value by attribute; `.bit(name)` reads a flag"""

    def __init__(self, ex, v):
        self._ex, self._v = ex, v

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k not in self._v.f:
            raise Unsupported("%s has no field %s" % (self._v.cls, k))
        x = self._v.f[k]
        if isinstance(x, Rec):
            return RecView(self._ex, x)
        if x is UNINIT:
            raise Unsupported("field %s is not initialised" % k)
        return x

    def has(self, k):
        return k in self._v.f


class View:
    """what a contract talks about: old/new parameters, receiver, result"""

    def __init__(self, ex, f, this0, args0):
        self.ex, self.f = ex, f
        self._this0, self._args0 = this0, args0
        self._this1 = self._args1 = None
        self._ret = None
        self.st = None
        self.s0 = self.s1 = None

    def abs(self, name, text):
        """the text, or the symbol the path holds in its place"""
        if self.st is not None and name in self.st.abs:
            return self.st.abs[name]
        return text

    def seq(self, x, new=False):
        """the elements of the list x belongs to (an iterator or a list), on
        entry or on exit"""
        s = self.s1 if new else self.s0
        return s.load(x.lv)

    def seq_new(self, x):
        return self.seq(x, True)

    def wrap(self, v):
        if isinstance(v, Rec):
            return RecView(self.ex, v)
        if v is UNINIT:
            raise Unsupported("uninitialised value in a contract")
        return v

    def old(self, i):
        return self.wrap(self._args0[i])

    def new(self, i):
        return self.wrap(self._args1[i])

    @property
    def this(self):
        return self.wrap(self._this0)

    @property
    def this_new(self):
        return self.wrap(self._this1)

    @property
    def ret(self):
        return self.wrap(self._ret)


def argtypes(f):
    return [re.sub(r"\s+", " ", p["type"]["qualType"]) for p in f.params]


class Contract:
    """`qual`: qualified name of the function; `params`: normalised parameter
    types (both must match, otherwise the contract is simply not applied and the
    code is looked through).

    requires(v) -> [(name, term)]
    ensures(v)  -> [Clause]            normal return
    throws(v)   -> term or None        condition under which (exactly) the
                                       function throws; None: never throws
    frame: 'this' if the receiver may change, plus indices of changed refs
    """

    def __init__(self, qual, params, requires=None, ensures=None, throws=None,
                 frame=(), may_throw=None, src=None, pools=(), props=(),
                 inline=(), verify=True, throw_ensures=None, ret=None,
                 abstract=None, name=None, noreturn=False, defs=None,
                 const=None, call=True, by=None):
        self.qual, self.params = qual, list(params)
        self.requires = requires or (lambda v: [])
        self.ensures = ensures or (lambda v: [])
        self.throws = throws
        self.throw_ensures = throw_ensures
        self.frame = frame
        self.src = src
        self.pools = list(pools)
        self.call = call            # applied at call sites (else looked through)
        self.by = by                # which overload: last parameter & or &&
        self.const = const          # which overload: const, not, or either
        self.name = name or "%s(%s)%s" % (
            qual, ", ".join(self.params), " const" if const else "")
        self.enabled = True
        self.do_verify = verify
        self.abstract = abstract    # v -> {name: (text, facts)}
        self.ret = ret
        self.defs = defs or (lambda v: [])   # definitions of ghost symbols
        self.noreturn = noreturn    # never returns (and does not throw)

    def matches(self, f):
        if not self.enabled or f.qual != self.qual or \
                len(f.params) != len(self.params):
            return False
        if self.const is not None and self.const != bool(re.search(
                r"\)\s*const\b", f.type)):
            return False
        if self.by is not None and (self.by == "&&") != f.params[-1][
                "type"]["qualType"].rstrip().endswith("&&"):
            return False
        return all(norm(p["type"]["qualType"]) == t or norm(ctype(p)) == t
                   for p, t in zip(f.params, self.params))

    # ------------------------------------------------------------- call site
    def apply(self, ex, f, st, this, args, n):
        args0 = []
        lvs = []
        for p, a in zip(f.params, args):
            if a is DEFAULT:
                raise Unsupported("default argument")
            lvs.append(a if isinstance(a, LV) else None)
            args0.append(ex.rv(st, a))
        v = View(ex, f, st.load(this) if this is not None else None, args0)
        cells, elems = list_cells(ex, st, [v._this0] + args0)
        v.s0 = st.copy()
        for t in self.defs(v):
            st.assume(t)
        for nm, t in self.requires(v):
            ex.obl(st, "requires", t, n, "precondition of %s: %s" %
                   (self.qual, nm))
        out = []
        if self.throws is not None:
            t = self.throws(v)
            if t is not None:
                rest = None
                for s, b in ex.fork(st, t):
                    if b:
                        ex.throw(s, S("exception from " + self.qual), n)
                    else:
                        rest = s
                if rest is None:
                    return []
                st = rest
        if self.noreturn:
            return []
        if "list" in self.frame:
            for c in cells:
                x = st.store[c]
                st.store[c] = Vec.symbolic(ex, st, x.shape.elem, "list1",
                                           x.length)
        saved = dict(ex.world)
        ex.world.update(elems)
        try:
            return self.result(ex, f, st, this, args0, lvs, v, n)
        finally:
            ex.world.clear()
            ex.world.update(saved)

    def result(self, ex, f, st, this, args0, lvs, v, n):
        if "this" in self.frame:
            if f.kind == "CXXConstructorDecl":
                v._this1 = ex.symbolic(st, f.tu.decl_qual[f.cls["id"]],
                                       "this1")
            else:
                v._this1 = ex.havoc(st, v._this0, "this1")
            st.put(this, v._this1)
        else:
            for p in this_parts(self.frame):
                lv = this
                for q in p:
                    lv = lv.sub(q)
                st.put(lv, ex.havoc(st, st.load(lv), p[-1], ex.type_of(
                    st, lv)))
            v._this1 = st.load(this) if this is not None else None
        v._args1 = list(args0)
        for i in self.frame:
            if isinstance(i, str):
                continue
            p = f.params[i]
            x = args0[i]
            if x is UNINIT:
                nv = ex.symbolic(st, ctype(p), "out%d" % i)
            else:
                nv = ex.havoc(st, x, "out%d" % i, ctype(p))
            v._args1[i] = nv
            st.put(lvs[i], nv)
        rt = self.ret or f.ret
        if norm(rt) != "void" and f.kind != "CXXConstructorDecl":
            v._ret = ex.symbolic(st, rt, "ret_" + f.name)
        v.s1 = st
        for c in self.ensures(v):
            st.assume(c.term)
        return [(st, v._ret)]


def list_cells(ex, st, vals):
    """the lists the arguments of a call point into: {cell}, {type: cell}"""
    cells, elems = set(), {}

    def go(v):
        if isinstance(v, LV):
            go(st.load(v))
        elif isinstance(v, (SIter, ListRef)):
            c = v.lv.cell
            if c in ex.list_cells and not v.lv.path:
                x = st.store[c]
                e = x.elem if hasattr(x, "elem") else x.shape.elem
                if elems.get(e, c) != c:
                    raise Unsupported("a call that involves two lists")
                elems[e] = c
                cells.add(c)
        elif isinstance(v, Rec):
            for x in v.f.values():
                go(x)
    for v in vals:
        go(v)
    return cells, elems


class Verified:
    """outcome of verifying one function"""

    def __init__(self, con):
        self.con = con
        self.obls = []
        self.status = "proved"   # proved | failed | unsupported
        self.reason = ""
        self.time = 0.0
        self.inlined = set()
        self.used = set()
        self.loops = []
        self.lib = set()
        self.file = ""
        self.line = 0
        self.paths = 0
        self.views = {}


def find_func(tus, con):
    for tu in tus:
        for f in tu.funcs:
            if con.matches(f) and f.body is not None:
                return tu, f
    return None, None


def generate(tus, lib, cfg, con):
    """obligations of one function against its contract"""
    r = Verified(con)
    t0 = time.time()
    en, con.enabled = con.enabled, True
    tu, f = find_func(tus, con)
    if f is None:
        con.enabled = en
        r.status, r.reason = "unsupported", "no definition matching %s" % \
            con.name
        return r
    con.enabled = False          # its own body is what we look at
    try:
        ex = Executor(tu, lib, cfg)
        r.file, r.line = f.file, (f.node.get("loc") or {}).get("line")
        st = State()
        args, args0 = [], []
        for i, p in enumerate(f.params):
            x = ex.symbolic(st, ctype(p), p.get("name") or "p%d" % i)
            args0.append(x)
            args.append(st.alloc(x, ctype(p)))
        this = None
        this0 = None
        if f.cls is not None and not f.static:
            cls = f.tu.decl_qual[f.cls["id"]]
            if f.kind == "CXXConstructorDecl":
                this = st.alloc(ex.blank_object(st, cls), cls)
            else:
                this0 = ex.symbolic(st, cls, "this")
                this = st.alloc(this0, cls)
        v = View(ex, f, this0, args0)
        v.s0 = s0 = st.copy()
        for t in con.defs(v):
            st.assume(t)
        for nm, t in con.requires(v):
            st.assume(t)
        r.requires = list(st.pc)
        if con.abstract:
            ex.abstract = con.abstract(v)
            ex.abs_var = {k: T("var", ("text_" + k, ), "Str")
                          for k in ex.abstract}
            ex.param_cells = {a.cell for a in args}
        ex.orig = dict(st.store)
        ex.sinks.append([])
        ex.fn_stack.append(f)
        try:
            outs = ex.run_func(f, st, this, args, f.node)
        finally:
            ex.fn_stack.pop()
        thrown = ex.sinks.pop()
        r.paths = len(outs) + len(thrown)
        npaths = 0
        for o in outs:
            s = o.st
            w = View(ex, f, this0, args0)
            w.st = w.s1 = s
            w.s0 = s0
            w._this1 = s.load(this) if this is not None else None
            w._args1 = [s.load(a) for a in args]
            w._ret = ex.rv(s, o.v) if o.v is not None else None
            npaths += 1
            if con.throws is not None:
                t = con.throws(w)
                if t is not None:
                    ex.obls.append(Obligation(
                        "returns normally only if the throwing condition is "
                        "false", "ensures", list(s.pc), Not(t),
                        con.throw_props if hasattr(con, "throw_props")
                        else (), ex.where(f.node), f.qual))
            for c in con.ensures(w):
                ex.obls.append(Obligation(c.name, "ensures", list(s.pc),
                                          c.term, c.props, ex.where(f.node),
                                          f.qual))
            # frame
            if this is not None and "this" not in con.frame and \
                    f.kind != "CXXConstructorDecl":
                frame_eq(ex, r, s, this0, w._this1, "receiver", f,
                         this_parts(con.frame))
            for cell in sorted(s0.store):
                if cell not in ex.list_cells or "list+" in con.frame:
                    continue
                if "list" in con.frame:
                    if s0.store[cell].length != s.store[cell].length or any(
                            c == cell for c, _ in s.moves):
                        raise Unsupported("elements inserted or erased")
                    continue
                frame_eq(ex, r, s, s0.store[cell], s.store[cell], "list", f)
            for i, a in enumerate(args):
                if i not in con.frame and isref(f.params[i]["type"]
                                                ["qualType"]):
                    frame_eq(ex, r, s, args0[i], w._args1[i],
                             "parameter %d" % i, f)
        for s, exc, nn in thrown:
            w = View(ex, f, this0, args0)
            w.st = w.s1 = s
            w.s0 = s0
            w._this1 = s.load(this) if this is not None else None
            w._args1 = [s.load(a) for a in args]
            t = con.throws(w) if con.throws is not None else None
            if t is None:
                t = FALSE
            ex.obls.append(Obligation(
                "throws only when the contract says so", "throws",
                list(s.pc), t, getattr(con, "throw_props", ()),
                ex.where(nn), f.qual))
        r.obls = ex.obls
        r.args0, r.this0 = args0, this0
        r.inlined, r.used = ex.inlined, ex.used_contracts
        r.loops, r.lib = ex.loops, ex.lib_used
    except Unsupported as e:
        r.status, r.reason = "unsupported", str(e)
    except smt.TimeUp:
        r.status, r.reason = "unsupported", "out of time"
    finally:
        con.enabled = en
    r.time = time.time() - t0
    return r


def this_parts(frame):
    """parts of the receiver that may change: ("field", ...)"""
    return [tuple(x[5:].split(".")) for x in frame
            if isinstance(x, str) and x.startswith("this.")]


def frame_eq(ex, r, s, a, b, what, f, skip=()):
    skip = {what + "." + ".".join(p) for p in skip}

    def go(x, y, path):
        if path in skip:
            return
        if isinstance(x, Rec) and isinstance(y, Rec):
            for k in x.f:
                go(x.f[k], y.f[k], path + "." + k)
        elif isinstance(x, T) and isinstance(y, T):
            if x != y:
                ex.obls.append(Obligation("frame: %s unchanged" % path,
                                          "frame", list(s.pc), Eq(x, y), (),
                                          ex.where(f.node), f.qual))
        elif isinstance(x, SIter):
            if x.lv != y.lv:
                raise Unsupported("frame of " + path)
            go(x.i, y.i, path)
        elif isinstance(x, Vec):
            go(x.length, y.length, path + ".size")
            for k in x.arrs:
                if x.arrs[k] is not y.arrs[k] and x.arrs[k] != y.arrs[k]:
                    ex.obls.append(Obligation(
                        "frame: elements of %s unchanged" % path, "frame",
                        list(s.pc), AllK(0, x.length, lambda i: Eq(
                            Sel(x.arrs[k], i), Sel(y.arrs[k], i))), (),
                        ex.where(f.node), f.qual))
        elif isinstance(x, Bits):
            for k, (p, q) in enumerate(zip(x.b, y.b)):
                if p != q:
                    ex.obls.append(Obligation(
                        "frame: %s[%d] unchanged" % (path, k), "frame",
                        list(s.pc), Eq(p, q), (), ex.where(f.node), f.qual))
    go(a, b, what)


def _one(o, timeout, use_cvc5):
    t0 = time.time()
    res = smt.prove(o.pc, o.goal, timeout=timeout, use_cvc5=use_cvc5,
                    chain=True)
    o.time = time.time() - t0
    o.result = {"unsat": "discharged", "sat": "refuted",
                "unknown": "unknown"}.get(res.status, res.status)
    o.backend = res.backend
    o.values = None
    if res.status == "sat" and res.model is not None:
        try:
            o.values = res.model.vars()
        except Exception:
            o.values = None


def _group(obls, timeout, use_cvc5):
    """obligations of one path: first all at once, then one by one"""
    dl = _W.get("dl")
    if dl is not None and time.time() > dl:
        for o in obls:
            o.time, o.result, o.backend, o.values = 0.0, "unknown", "", None
        return
    if len(obls) > 1:
        t0 = time.time()
        res = smt.prove(obls[0].pc, And(*[o.goal for o in obls]),
                        timeout=timeout, use_cvc5=False)
        if res.status == "unsat":
            dt = (time.time() - t0) / len(obls)
            for o in obls:
                o.time, o.result, o.backend = dt, "discharged", res.backend
                o.values = None
            return
    for o in obls:
        _one(o, timeout, use_cvc5)


def discharge(obls, timeout=8000, use_cvc5=True, procs=1, deadline=None,
              max_fail=None, stop=None):
    """discharge obligations; sets result/backend/time/values on each"""
    _W["dl"] = deadline
    groups = {}
    for o in obls:
        o.result, o.values = "not attempted", None
        groups.setdefault(tuple(o.pc), []).append(o)
    groups = list(groups.values())
    nbad = 0

    def enough():
        return (max_fail is not None and nbad >= max_fail) or \
            (stop is not None and stop(nbad))
    if procs > 1 and len(groups) > 3:
        import multiprocessing
        ctx = multiprocessing.get_context("fork")
        _W["g"], _W["t"], _W["c"] = groups, timeout, use_cvc5
        with ctx.Pool(min(procs, len(groups))) as pool:
            it = pool.imap_unordered(_work, range(len(groups)), chunksize=1)
            left = len(groups)
            while left:
                try:
                    k, rs, st = it.next(timeout=1.0)
                except multiprocessing.TimeoutError:
                    if enough():
                        break
                    continue
                left -= 1
                for o, (res, be, tm, vals) in zip(groups[k], rs):
                    o.result, o.backend, o.time, o.values = res, be, tm, vals
                    nbad += res != "discharged"
                for key, val in st.items():
                    smt.STATS[key] += val
                if enough():
                    break
            pool.terminate()
    else:
        for g in groups:
            _group(g, timeout, use_cvc5)
            nbad += sum(o.result != "discharged" for o in g)
            if enough():
                break
    return obls


_W = {}


def _work(k):
    before = dict(smt.STATS)
    g = _W["g"][k]
    _group(g, _W["t"], _W["c"])
    return k, [(o.result, o.backend, o.time, o.values) for o in g], \
        {x: smt.STATS[x] - before[x] for x in before}
