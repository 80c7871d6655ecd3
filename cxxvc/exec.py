"""Symbolic executor / verification-condition generator over the clang AST."""
import os
import re
import sys

from . import smt
from .ast import ctype, line_of, file_of, FUNC_KINDS
from .terms import *
from .values import *

sys.setrecursionlimit(20000)


class Obligation:
    def __init__(self, name, kind, pc, goal, tags, loc, fn):
        self.name, self.kind, self.pc, self.goal = name, kind, pc, goal
        self.tags, self.loc, self.fn = tags, loc, fn
        self.result = None
        self.time = 0.0
        self.backend = ""
        self.model = None

    def __repr__(self):
        return "<%s %s @%s %s>" % (self.kind, self.name, self.loc, self.result)


class Out:
    """outcome of a statement"""
    __slots__ = ("k", "st", "v")

    def __init__(self, k, st, v=None):
        self.k, self.st, self.v = k, st, v


class Config:
    """what the executor is told from outside (contracts, library, invariants)"""

    def __init__(self):
        self.contracts = []     # Contract objects
        self.inv_pools = []     # callables(ctx) -> iterable of candidate terms
        self.max_depth = 14
        self.concrete = False
        self.timeout = 4000
        self.overflow = True
        self.opaque = set()     # qualified names never inlined
        self.max_paths = 4000
        self.no_body = set()
        self.merge = True


class Executor:
    def __init__(self, tu, lib, cfg):
        self.tu, self.lib, self.cfg = tu, lib, cfg
        self.obls = []
        self.record = True
        self.trial = 0
        self.sinks = []
        self.depth = 0
        self.fn_stack = []
        self.used_contracts = set()
        self.inlined = set()
        self.lib_used = set()
        self.abstract = {}      # name -> (text, facts)
        self.abs_var = {}
        self.abs_tried = {}
        self.param_cells = set()
        self.loops = []
        self.tags = ()
        self.paths = 0
        self.shapes = {}
        self.world = {}         # element type -> cell of "the" list of them
        self.world_val = {}
        self.owned = set()
        self.list_cells = set()
        self.aliases = {}
        for n in tu.by_id.values():
            if n["kind"] in ("TypeAliasDecl", "TypedefDecl"):
                self.aliases.setdefault(n["name"], ctype(n))

    # ============================================================ utilities
    def where(self, n):
        f = file_of(n) or (self.fn_stack[-1].file if self.fn_stack else "?")
        return "%s:%s" % (os.path.basename(f or "?"), line_of(n))

    def obl(self, st, kind, goal, n, msg):
        """goal must hold on this path; assumed afterwards"""
        goal = coerce(goal)
        if self.cfg.concrete:
            if goal.op == "bool" and not cv(goal):
                raise ConcreteFault("%s at %s: %s" % (kind, self.where(n), msg))
            return
        if self.record and not self.trial:
            self.obls.append(Obligation(msg, kind, list(st.pc), goal, self.tags,
                                        self.where(n), self.fn_stack[0].qual
                                        if self.fn_stack else ""))
        st.assume(goal)

    def feasible(self, st):
        if self.cfg.concrete:
            return not any(p.op == "bool" and not cv(p) for p in st.pc)
        for p in st.pc:
            if p.op == "bool" and not cv(p):
                return False
        return smt.feasible(st.pc)

    def known(self, st, t):
        """is t provable here (cheap)?"""
        if t.op == "bool":
            return cv(t)
        if t in st.pc:
            return True
        if self.cfg.concrete:
            return False
        r = smt.check(list(st.pc) + [Not(t)], timeout=300, rounds=2,
                      want_model=False)
        return r.status == "unsat"

    def fork(self, st, cond):
        """[(state, bool)] for the feasible outcomes of cond"""
        cond = coerce(cond)
        if cond.op == "bool":
            return [(st, cv(cond))]
        if cond in st.pc:
            return [(st, True)]
        if Not(cond) in st.pc:
            return [(st, False)]
        a, b = st, st.copy()
        a.assume(cond)
        b.assume(Not(cond))
        out = []
        if self.feasible(a):
            out.append((a, True))
        if self.feasible(b):
            out.append((b, False))
        self.paths += 1
        if self.paths > self.cfg.max_paths * 20:
            raise Unsupported("path explosion")
        return out

    def throw(self, st, exc, n):
        if not self.sinks:
            raise Unsupported("throw outside function")
        self.sinks[-1].append((st, exc, n))
        return []

    def rv(self, st, v):
        """value of an evaluated expression"""
        if isinstance(v, LV):
            return st.load(v)
        return v

    def res_type(self, t):
        t0 = norm(t)
        if t0 in _PRIM or int_info(t0):
            return t0
        if t0 in self.aliases:
            return norm(self.aliases[t0])
        last = t0.split("::")[-1]
        if "<" not in t0 and last in self.aliases and \
                self.find_class(t0) is None:
            return norm(self.aliases[last])
        return t0

    def find_class(self, t):
        t = norm(t)
        c = self.tu.classes
        if t in c:
            return t
        for k in c:
            if k.endswith("::" + t):
                return k
        for k in c:
            if t.endswith("::" + k):
                return k
        if "<" in t:
            # template arguments written without their namespace
            bare = lambda x: re.sub(r",allocator<[^<>]*>", "", re.sub(
                r"\b\w+::", "", x).replace(" ", ""))
            m = [k for k in c if "<" in k and bare(k) == bare(t)]
            if len(m) == 1:
                return m[0]
        return None

    def is_enum(self, t):
        for i, q in self.tu.decl_qual.items():
            n = self.tu.by_id.get(i)
            if n is not None and n["kind"] == "EnumDecl" and \
                    (q == t or q.endswith("::" + t) or t.endswith("::" + q)):
                return n
        return None

    def enum_range(self, n):
        vs = [self.tu.enums[x["id"]] for x in n.get("inner", [])
              if x.get("kind") == "EnumConstantDecl"]
        return min(vs), max(vs)

    # ---------------------------------------------------- symbolic values
    def symbolic(self, st, typ, hint):
        t = self.res_type(typ)
        if t == "string":
            return fresh(hint, "Str")
        if t == "bool":
            return fresh(hint, "Bool")
        if t in ("char", "unsigned char"):
            v = fresh(hint, "Int")
            st.assume(Le(0, v))
            st.assume(Le(v, 255))
            return v
        ii = int_info(t)
        if ii:
            v = fresh(hint, "Int")
            lo = -(1 << (ii[1] - 1)) if ii[0] else 0
            hi = (1 << (ii[1] - 1)) - 1 if ii[0] else (1 << ii[1]) - 1
            st.assume(Le(lo, v))
            st.assume(Le(v, hi))
            return v
        m = re.match(r"(?:std::)?bitset<(\d+)(?:UL)?>$", t)
        if m:
            return Bits(fresh(hint + "_b%d" % k, "Bool")
                        for k in range(int(m.group(1))))
        r = self.lib.symbolic(self, st, t, hint)
        if r is not None:
            return r
        c = self.find_class(t)
        if c:
            fs = {}
            saved = dict(self.world)
            for f in self.fields(c):
                e = self.lib.list_elem(self.res_type(ctype(f)))
                if e is not None and e in self.owned:
                    self.world.pop(e, None)     # a list of its own
            fresh_w = {e for e in saved if e not in self.world}
            for b in self.bases(c):
                bv = self.symbolic(st, b, hint)
                fs.update(bv.f)
            for f in self.fields(c):
                fs[f["name"]] = self.symbolic(st, ctype(f), hint + "_" +
                                              f["name"])
            for e in fresh_w:
                self.world[e] = saved[e]
            return Rec(c, fs)
        e = self.is_enum(t)
        if e is not None:
            v = fresh(hint, "Int")
            lo, hi = self.enum_range(e)
            st.assume(Le(lo, v))
            st.assume(Le(v, hi))
            return v
        raise Unsupported("symbolic value of type " + typ)

    def world_lv(self, st, elem):
        """the list that iterators of unknown origin point into"""
        c = self.world.get(elem)
        if c is None:
            n = len(st.pc)
            v = self.lib.list_value(self, st, elem, "list")
            lv = st.alloc(v, "std::list<%s>" % elem)
            c = self.world[elem] = lv.cell
            self.world_val[c] = (v, st.pc[n:])
            self.list_cells.add(c)
        elif c not in st.store:
            v, facts = self.world_val[c]
            st.store[c] = v
            for t in facts:
                st.assume(t)
        return LV(c)

    def fields(self, c):
        n = self.tu.classes[c]
        return [x for x in n.get("inner", []) if x.get("kind") == "FieldDecl"]

    def bases(self, c):
        return [b["type"].get("desugaredQualType") or b["type"]["qualType"]
                for b in self.tu.classes[c].get("bases", [])]

    def havoc(self, st, v, hint, typ=None):
        if isinstance(v, T):
            r = fresh(hint, v.sort)
            if v.sort.startswith("A_"):
                g = arange(v)
                if g is not None:
                    ARANGE[r] = g
                return r
            if v.sort == "Int":
                t = self.res_type(typ) if typ else None
                ii = int_info(t) if t else None
                if t in ("char", "unsigned char"):
                    st.assume(Le(0, r))
                    st.assume(Le(r, 255))
                elif ii:
                    lo = -(1 << (ii[1] - 1)) if ii[0] else 0
                    hi = (1 << (ii[1] - 1)) - 1 if ii[0] else (1 << ii[1]) - 1
                    st.assume(Le(lo, r))
                    st.assume(Le(r, hi))
            return r
        if isinstance(v, Bits):
            return Bits(fresh(hint, "Bool") for _ in v.b)
        if isinstance(v, Rec):
            return Rec(v.cls, {k: self.havoc(st, x, hint + "_" + k,
                                             self.field_type(v.cls, k))
                               for k, x in v.f.items()})
        if isinstance(v, SIter):
            i = fresh(hint, "Int")
            return SIter(v.lv, i, v.rev)
        if v is UNINIT:
            return UNINIT
        if hasattr(v, "havoc"):
            return v.havoc(self, st, hint)
        raise Unsupported("havoc of %r" % (v,))

    def enum_value(self, qual):
        """value of an enumerator, by (the tail of) its qualified name"""
        for tu in [self.tu] + list(getattr(self.tu, "others", [])):
            idx = getattr(tu, "_enum_by_name", None)
            if idx is None:
                idx = tu._enum_by_name = {}
                for i, val in tu.enums.items():
                    q = tu.decl_qual.get(i) or tu.by_id[i].get("name")
                    idx.setdefault(tu.by_id[i]["name"], []).append((q, val))
            last = qual.split("::")[-1]
            for q, val in idx.get(last, []):
                return val
        raise Unsupported("no enumerator " + qual)

    def shape(self, st, elem):
        from .seq import Shape
        if elem not in self.shapes:
            self.shapes[elem] = Shape(self, st, elem)
        return self.shapes[elem]

    def field_type(self, cls, name):
        c = self.find_class(cls)
        if c:
            for f in self.fields(c):
                if f["name"] == name:
                    return ctype(f)
            for b in self.bases(c):
                r = self.field_type(b, name)
                if r:
                    return r
        return None

    def default_value(self, st, typ):
        """value-initialisation"""
        t = self.res_type(typ)
        if t == "string":
            return S("")
        if t == "bool":
            return FALSE
        if t in ("char", "unsigned char") or int_info(t):
            return I(0)
        m = re.match(r"(?:std::)?bitset<(\d+)(?:UL)?>$", t)
        if m:
            return Bits([FALSE] * int(m.group(1)))
        if t.endswith("*"):
            return Ptr(None)
        r = self.lib.default(self, st, t)
        if r is not None:
            return r
        if self.is_enum(t) is not None:
            return I(0)
        return None

    # ============================================================ statements
    def run_stmts(self, ns, sts):
        """sequence; returns outcomes"""
        cur = [Out("n", s) for s in sts]
        for n in ns:
            nxt = []
            for o in cur:
                if o.k == "n":
                    if self.abstract and len(o.st.abs) < len(self.abstract):
                        nxt.extend(self.abstracting(n, o.st))
                    else:
                        nxt.extend(self.stmt(n, o.st))
                else:
                    nxt.append(o)
            cur = nxt
            if len(cur) > self.cfg.max_paths:
                raise Unsupported("path explosion")
        return cur

    def abstracting(self, n, st):
        """run n; where a local string provably holds a text the contract
        names, put an opaque symbol in its place (the contract's clauses are
        then proved for every such text), and join the paths"""
        base_pc, cells = list(st.pc), set(st.store)
        outs = self.stmt(n, st)
        if self.trial or not self.record:
            return outs
        hit = []
        for o in outs:
            if o.k != "n":
                continue
            s = o.st
            if len(s.abs) > len(st.abs):
                hit.append(o)
            for name, (text, facts) in self.abstract.items():
                if name in s.abs:
                    continue
                for lv in list(s.env.values()):
                    if not isinstance(lv, LV) or lv.path or \
                            lv.cell in self.param_cells:
                        continue
                    x = s.store.get(lv.cell)
                    if not (isinstance(x, T) and x.sort == "Str") or \
                            x.op == "str":
                        continue
                    key = (name, x, tuple(s.pc))
                    if key not in self.abs_tried:
                        g = And(Eq(x, text), *facts(text))
                        self.abs_tried[key] = smt.prove(
                            s.pc, g, timeout=10000).status == "unsat"
                    if self.abs_tried[key]:
                        e = self.abs_var[name]
                        s.put(lv, e)
                        s.abs = dict(s.abs)
                        s.abs[name] = e
                        if o not in hit:
                            hit.append(o)
                        break
        if not hit:
            return outs
        rest = [o for o in outs if o not in hit]
        done = []
        for o in hit:
            a = State()
            a.store = {c: o.st.store[c] for c in cells if c in o.st.store}
            o.st.pc = list(base_pc)
            for nm, e in o.st.abs.items():
                for f in self.abstract[nm][1](e):
                    o.st.assume(f)
            for p in done:
                b = State()
                b.store = {c: p.st.store[c] for c in cells
                           if c in p.st.store}
                if p.st.abs == o.st.abs and not self.diff(a, b):
                    break
            else:
                done.append(o)
        return rest + done

    def stmt(self, n, st):
        k = n.get("kind")
        if not k:
            return [Out("n", st)]
        m = getattr(self, "s_" + k, None)
        if m:
            return m(n, st)
        return [Out("n", s) for s, _ in self.ev(n, st)]

    def s_CompoundStmt(self, n, st):
        return self.run_stmts(n.get("inner", []), [st])

    def s_NullStmt(self, n, st):
        return [Out("n", st)]

    def s_DeclStmt(self, n, st):
        cur = [st]
        for d in n.get("inner", []):
            if d["kind"] == "VarDecl":
                nxt = []
                for s in cur:
                    nxt.extend(self.declare(d, s))
                cur = nxt
            elif d["kind"] in ("TypeAliasDecl", "TypedefDecl"):
                self.aliases[d["name"]] = ctype(d)
        return [Out("n", s) for s in cur]

    def declare(self, d, st):
        t = ctype(d)
        init = [x for x in d.get("inner", []) if not x["kind"].endswith(
            ("Attr", "Comment"))]
        if d.get("storageClass") == "static" and not self.cfg.concrete:
            if not self.lib.static_ok(self, d):
                raise Unsupported("static local " + d.get("name", ""))
        if init:
            out = []
            for s, v in self.ev(init[-1], st):
                if isref(d["type"]["qualType"]) or isref(t):
                    if isinstance(v, LV):
                        s.env[d["id"]] = v
                    else:
                        s.env[d["id"]] = s.alloc(v, t)
                else:
                    s.env[d["id"]] = s.alloc(self.rv(s, v), t)
                out.append(s)
            return out
        tt = self.res_type(t)
        if tt in ("bool", "char", "unsigned char") or int_info(tt) or \
                tt.endswith("*") or self.is_enum(tt) is not None:
            st.env[d["id"]] = st.alloc(UNINIT, t)
            return [st]
        v = self.default_value(st, t)
        if v is None:
            raise Unsupported("declaration of " + t)
        st.env[d["id"]] = st.alloc(v, t)
        return [st]

    def cond(self, n, st):
        """[(state, bool)]"""
        out = []
        for s, v in self.ev(n, st):
            v = self.rv(s, v)
            if v is UNINIT:
                self.obl(s, "uninit", FALSE, n, "read of uninitialised value")
                v = fresh("uninit", "Bool")
            out.extend(self.fork(s, self.truth(v)))
        return out

    def truth(self, v):
        if isinstance(v, T):
            if v.sort == "Bool":
                return v
            if v.sort == "Int":
                return Ne(v, 0)
        if isinstance(v, Ptr):
            return B(v.lv is not None)
        if hasattr(v, "truth"):
            return v.truth()
        raise Unsupported("condition %r" % (v,))

    def s_IfStmt(self, n, st):
        inner = list(n["inner"])
        pre = []
        if n.get("hasInit"):
            pre.append(inner.pop(0))
        if n.get("hasVar"):
            pre.append(inner.pop(0))
        out = []
        cur = self.run_stmts(pre, [st]) if pre else [Out("n", st)]
        for o in cur:
            if o.k != "n":
                out.append(o)
                continue
            for s, b in self.cond(inner[0], o.st):
                if b:
                    out.extend(self.stmt(inner[1], s))
                elif len(inner) > 2:
                    out.extend(self.stmt(inner[2], s))
                else:
                    out.append(Out("n", s))
        return out

    def s_ReturnStmt(self, n, st):
        inner = n.get("inner", [])
        if not inner:
            return [Out("r", st)]
        out = []
        for s, v in self.ev(inner[0], st):
            if isinstance(v, LV) and not self.ret_ref:
                v = s.load(v)
            out.append(Out("r", s, v))
        return out

    def s_BreakStmt(self, n, st):
        return [Out("b", st)]

    def s_ContinueStmt(self, n, st):
        return [Out("c", st)]

    def s_CXXTryStmt(self, n, st):
        body, handlers = n["inner"][0], n["inner"][1:]
        self.sinks.append([])
        out = self.stmt(body, st)
        caught = self.sinks.pop()
        for s, exc, nn in caught:
            h = handlers[0]
            # only catch-all or any std exception handler is modelled
            if len(handlers) != 1:
                raise Unsupported("several handlers")
            env = dict(s.env)
            for d in h.get("inner", []):
                if d.get("kind") == "VarDecl":
                    s.env[d["id"]] = s.alloc(exc, ctype(d))
            body = [x for x in h["inner"] if x.get("kind") == "CompoundStmt"]
            self.cur_exc = exc
            out.extend(self.stmt(body[0], s))
        return out

    def s_SwitchStmt(self, n, st):
        inner = n["inner"]
        body = inner[-1]
        cond = inner[-2]
        items = []          # flat list of ('case', value)|('default',)|stmt

        def flat(x):
            k = x.get("kind")
            if k == "CaseStmt":
                items.append(("case", self.const_int(x["inner"][0])))
                flat(x["inner"][-1])
            elif k == "DefaultStmt":
                items.append(("default",))
                flat(x["inner"][-1])
            else:
                items.append(x)
        for x in body.get("inner", []):
            flat(x)
        out = []
        for s, v in self.ev(cond, st):
            v = self.rv(s, v)
            rest = s
            dflt = None
            vals = [(i, it[1]) for i, it in enumerate(items)
                    if isinstance(it, tuple) and it[0] == "case"]
            for i, it in enumerate(items):
                if isinstance(it, tuple) and it[0] == "default":
                    dflt = i

            def run(i, s2):
                os_ = self.run_stmts([x for x in items[i:]
                                      if not isinstance(x, tuple)], [s2])
                for o in os_:
                    if o.k == "b":
                        out.append(Out("n", o.st))
                    else:
                        out.append(o)
            alive = [rest]
            for i, val in vals:
                nxt = []
                for a in alive:
                    for s2, b in self.fork(a, Eq(v, I(val))):
                        if b:
                            run(i, s2)
                        else:
                            nxt.append(s2)
                alive = nxt
            for a in alive:
                if dflt is not None:
                    run(dflt, a)
                else:
                    out.append(Out("n", a))
        return out

    def const_int(self, n):
        if n.get("kind") == "ConstantExpr" and "value" in n:
            return int(n["value"])
        r = self.ev(n, State())
        v = self.rv(*r[0])
        if v.op != "int":
            raise Unsupported("non-constant case label")
        return cv(v)

    # ------------------------------------------------------------- loops
    def s_WhileStmt(self, n, st):
        inner = n["inner"]
        if n.get("hasVar"):
            raise Unsupported("while with declaration")
        return self.loop(n, st, inner[-2], None, inner[-1])

    def s_DoStmt(self, n, st):
        body, c = n["inner"][0], n["inner"][1]
        return self.loop(n, st, c, None, body, post=True)

    def s_ForStmt(self, n, st):
        init, _, c, inc, body = n["inner"]
        out = []
        cur = self.stmt(init, st) if init.get("kind") else [Out("n", st)]
        for o in cur:
            if o.k != "n":
                out.append(o)
            else:
                out.extend(self.loop(n, o.st, c if c.get("kind") else None,
                                     inc if inc.get("kind") else None, body))
        return out

    def s_CXXForRangeStmt(self, n, st):
        inner = n["inner"]
        init, rng, beg, end, c, inc, var, body = inner
        pre = [x for x in (init, rng, beg, end) if x.get("kind")]
        out = []
        wrapped = {"kind": "CompoundStmt", "inner": [var, body],
                   "range": body.get("range", {})}
        for o in self.run_stmts(pre, [st]):
            if o.k != "n":
                out.append(o)
            else:
                out.extend(self.loop(n, o.st, c, inc, wrapped))
        return out

    def iter_body(self, st, inc, body):
        """one iteration after the condition: outcomes with 'n' = back edge"""
        out = []
        env, k0 = dict(st.env), len(st.moves)

        def back(s):
            s.env = s.since(env, k0)
            if len(s.moves) > k0 and s.env != env:
                raise Unsupported("a reference held across a loop moves")
            s.env = dict(env)
            out.append(Out("n", s))
        for o in self.stmt(body, st):
            if o.k in ("n", "c"):
                if inc is not None:
                    for s, _ in self.ev(inc, o.st):
                        back(s)
                else:
                    back(o.st)
            else:
                out.append(o)
        return out

    def loop(self, n, st, c, inc, body, post=False):
        env, k0 = dict(st.env), len(st.moves)
        out = []
        # --- unroll while the condition is decided by constants
        cur = [st]
        limit = 200000 if self.cfg.concrete else 96
        cut = []
        whole, nobl, nloops = st.copy(), len(self.obls), len(self.loops)
        nsink = len(self.sinks[-1]) if self.sinks else 0
        it = 0
        first = post
        while cur:
            nxt = []
            for s in cur:
                if first:
                    cs = [(s, TRUE)]
                else:
                    if c is None:
                        cs = [(s, TRUE)]
                    else:
                        probe = self.quiet_cond(c, s)
                        if probe is None:
                            cut.append(s)
                            continue
                        cs = [(s2, v) for s2, v in probe]
                for s2, v in cs:
                    if v.op != "bool" or it >= limit:
                        cut.append(s)
                        continue
                    if not cv(v):
                        out.append(Out("n", s2))
                        continue
                    if first and not self.cfg.concrete:
                        pass
                    for o in self.iter_body(s2, inc, body):
                        if o.k == "n":
                            nxt.append(o.st)
                        elif o.k == "b":
                            out.append(Out("n", o.st))
                        else:
                            out.append(o)
            first = False
            cur = nxt
            it += 1
            if len(cur) > 24 and not self.cfg.concrete and not post:
                # a counter that depends on the data, not a counted loop
                del self.obls[nobl:], self.loops[nloops:]
                if self.sinks:
                    del self.sinks[-1][nsink:]
                out, cut, cur = [], [whole], []
        if self.cfg.concrete and cut:
            raise Unsupported("concrete loop bound")
        for s in cut:
            out.extend(self.cut_loop(n, s, c, inc, body))
        for o in out:
            if o.k == "n":
                o.st.env = dict(o.st.since(env, k0))
        return out

    def quiet_cond(self, c, s):
        """evaluate the condition without recording; None unless it is a
        single-path constant"""
        s2 = s.copy()
        rec, self.record = self.record, self.cfg.concrete
        self.sinks.append([])
        try:
            r = self.ev(c, s2)
            if len(r) != 1 or self.sinks[-1]:
                return None
            v = self.rv(*r[0])
            if not isinstance(v, T):
                return None
            v = self.truth(v)
            if v.op != "bool":
                return None
            return [(r[0][0], v)]
        finally:
            self.record = rec
            self.sinks.pop()

    def leaves(self, st, cells):
        """all leaf lvalues of the given cells"""
        out = []

        def go(lv, v):
            if isinstance(v, Rec):
                for f in v.f:
                    go(lv.sub(f), v.f[f])
            elif hasattr(v, "parts"):
                for k, x in v.parts():
                    out.append((lv.sub(k), x))
            else:
                out.append((lv, v))
        for c in cells:
            go(LV(c), st.store[c])
        return out

    def diff(self, a, b):
        """leaves whose value differs between states (cells of a)"""
        ch = []

        def go(lv, x, y):
            if x is y:
                return
            if isinstance(x, Rec) and isinstance(y, Rec):
                for f in x.f:
                    go(lv.sub(f), x.f[f], y.f[f])
                return
            if isinstance(x, T) and isinstance(y, T) and x == y:
                return
            if isinstance(x, Bits) and isinstance(y, Bits) and x.b == y.b:
                return
            if isinstance(x, SIter) and isinstance(y, SIter) and \
                    x.lv == y.lv and x.rev == y.rev and x.i == y.i:
                return
            if isinstance(x, Ptr) and x == y:
                return
            if hasattr(x, "same") and x.same(y):
                return
            if hasattr(x, "parts") and type(x) is type(y):
                for (k, p), (_, q) in zip(x.parts(), y.parts()):
                    if p is not q and p != q:
                        ch.append(lv.sub(k))
                return
            ch.append(lv)
        for c in a.store:
            go(LV(c), a.store[c], b.store[c])
        return ch

    def type_of(self, st, lv):
        t = st.types.get(lv.cell)
        v = st.store[lv.cell]
        for p in lv.path:
            if isinstance(p, str):
                t = self.field_type(v.cls, p) if isinstance(v, Rec) else None
            elif hasattr(v, "part_type"):
                t = v.part_type(p)
            elif p[0] == "at":
                t = "char"
            v = st._get(v, p)
        return t

    def run_iteration(self, st, c, inc, body):
        """(exit states, back-edge states, other outcomes)"""
        ex, back, other = [], [], []
        cs = self.cond(c, st) if c is not None else [(st, True)]
        for s, b in cs:
            if not b:
                ex.append(s)
                continue
            for o in self.iter_body(s, inc, body):
                if o.k == "n":
                    back.append(o.st)
                else:
                    other.append(o)
        return ex, back, other

    def cut_loop(self, n, st, c, inc, body):
        # ---- 1. modified set, by semantic fixpoint
        H = []
        Hset = set()
        self.trial += 1
        try:
            for _ in range(12):
                s = st.copy()
                for lv in H:
                    s.put(lv, self.havoc(s, st.load(lv), "t",
                                         self.type_of(st, lv)))
                self.sinks.append([])
                base = s.copy()
                try:
                    ex, back, other = self.run_iteration(s, c, inc, body)
                finally:
                    self.sinks.pop()
                new = []
                for s2 in back + ex + [o.st for o in other if o.k == "b"]:
                    for lv in self.diff(base, s2):
                        if lv not in Hset:
                            Hset.add(lv)
                            new.append(lv)
                if not new:
                    break
                # collapse: if a parent leaf changed shape keep parent only
                H.extend(new)
            else:
                raise Unsupported("modified-set fixpoint")
        finally:
            self.trial -= 1
        # drop sub-leaves of havocked parents
        H = [lv for lv in H if not any(
            o is not lv and o.cell == lv.cell and len(o.path) < len(lv.path)
            and lv.path[:len(o.path)] == o.path for o in H)]
        # ---- 2. head state
        head = st.copy()
        hv = []
        pcn = len(head.pc)
        for lv in H:
            old = st.load(lv)
            t = self.type_of(st, lv)
            new = self.havoc(head, old, "h%s" % line_of(n), t)
            head.put(lv, new)
            hv.append((lv, old, new, t))
        extra_pc = head.pc[pcn:]
        if self.trial:
            # no invariants in trial mode: havoc and go on
            ex, back, other = self.run_iteration(head.copy(), c, inc, body)
            res = [Out("n", s) for s in ex]
            for o in other:
                res.append(Out("n", o.st) if o.k == "b" else o)
            return res
        ctx = LoopCtx(self, n, st, head, hv, c)
        ctx.body_terms = self.body_conds(st, head, hv, c, inc, body)
        cands = []
        seen = set()
        for pool in [basic_pool] + list(self.cfg.inv_pools):
            for t in pool(ctx):
                t = coerce(t)
                if t.op == "bool" or t in seen:
                    continue
                seen.add(t)
                cands.append(t)
        # ---- 3. initiation
        def at(t, s):
            m = {}
            for lv, old, new, ty in hv:
                self.pairs(new, s.load(lv), m)
            return subst(t, m)
        live = []
        for t in cands:
            g = at(t, st)
            if g.op == "bool":
                if cv(g):
                    live.append(t)
                continue
            if smt.prove(st.pc, g, timeout=self.cfg.timeout // 4,
                         use_cvc5=False).status == "unsat":
                live.append(t)
            elif DBG:
                print("  init fails:", show(t)[:300])
        # ---- 4. Houdini
        rounds = 0
        while True:
            rounds += 1
            s = head.copy()
            for t in live:
                s.assume(t)
            rec, self.record = self.record, False
            self.sinks.append([])
            try:
                ex, back, other = self.run_iteration(s, c, inc, body)
            finally:
                self.record = rec
                self.sinks.pop()
            bad = set()
            for t in live:
                for s2 in back:
                    g = at(t, s2)
                    if g.op == "bool" and cv(g):
                        continue
                    res = smt.prove(s2.pc, g, timeout=self.cfg.timeout // 2,
                                    use_cvc5=False)
                    if res.status != "unsat":
                        bad.add(t)
                        if DBG:
                            print("  step fails:", res.status, show(t)[:300])
                        if DBG == "2":
                            for c in s2.pc:
                                print("       ", show(c)[:200])
                            print("       |-", show(g))
                            if res.model:
                                print(res.model.vars())
                        break
            if not bad:
                break
            live = [t for t in live if t not in bad]
            if rounds > 30:
                raise Unsupported("invariant inference did not converge")
        # ---- 5. final pass with recording
        s = head.copy()
        for t in live:
            s.assume(t)
        ex, back, other = self.run_iteration(s, c, inc, body)
        if self.record:
            for t in live:
                o = Obligation("loop invariant established: " + show(t)[:200],
                               "inv-init", list(st.pc), at(t, st), self.tags,
                               self.where(n), self.fn_stack[0].qual)
                self.obls.append(o)
                for s2 in back:
                    o = Obligation("loop invariant preserved: " +
                                   show(t)[:200], "inv-step", list(s2.pc),
                                   at(t, s2), self.tags, self.where(n),
                                   self.fn_stack[0].qual)
                    self.obls.append(o)
            dec = self.measure(hv, head, s, back, live)
            self.loops.append({"loop": self.where(n), "in":
                               self.fn_stack[-1].qual,
                               "candidates": len(cands),
                               "invariants": [show(t)[:300] for t in live],
                               "houdini_rounds": rounds,
                               "terminates": dec})
        res = [Out("n", s2) for s2 in ex]
        for o in other:
            if o.k == "b":
                res.append(Out("n", o.st))
            else:
                res.append(o)
        return res

    def body_conds(self, st, head, hv, c, inc, body):
        """conditions on elements tested in the body: atoms for invariants"""
        hs = set()
        for lv, old, new, t in hv:
            m = {}
            try:
                self.pairs(new, old, m)
            except Exception:
                pass
            hs |= set(m)
        if not any(hasattr(v, "shape") or hasattr(v, "elem_facts")
                   for v in st.store.values()) and not any(
                hasattr(x, "shape") for v in st.store.values()
                if isinstance(v, Rec) for x in v.f.values()):
            return []
        self.trial += 1
        rec, self.record = self.record, False
        self.sinks.append([])
        try:
            s = head.copy()
            mark = fresh("mark", "Int")
            n0 = int(mark.args[0].split("!")[-1])
            ex, back, other = self.run_iteration(s, c, inc, body)
        except Unsupported:
            return []
        finally:
            self.sinks.pop()
            self.record = rec
            self.trial -= 1
        out = []
        for s2 in ex + back + [o.st for o in other]:
            for t in s2.pc[len(head.pc):]:
                for a in disj(t):
                    subs = set()
                    subterms(a, subs)
                    if not any(x.op in ("sel",) for x in subs):
                        continue
                    vs = [x for x in subs if x.op == "var"]
                    if not any(x in hs for x in vs):
                        continue
                    if any("!" in x.args[0] and x.args[0].split("!")[-1]
                           .isdigit() and int(x.args[0].split("!")[-1]) > n0
                           for x in vs):
                        continue
                    if a.op == "not":
                        a = a.args[0]
                    if a not in out:
                        out.append(a)
        return out[:8]

    def measure(self, hv, head, s, back, live):
        """a variant: some integer leaf that moves strictly towards a bound"""
        for lv, old, new, ty in hv:
            x = new.i if isinstance(new, SIter) else new
            if not (isinstance(x, T) and x.sort == "Int"):
                continue
            for d in (1, -1):
                ok = bool(back)
                for s2 in back:
                    y = s2.load(lv)
                    y = y.i if isinstance(y, SIter) else y
                    if not isinstance(y, T):
                        ok = False
                        break
                    g = Lt(x, y) if d == 1 else Lt(y, x)
                    if smt.prove(s2.pc, g, timeout=500,
                                 use_cvc5=False).status != "unsat":
                        ok = False
                        break
                if ok:
                    return "variant: %s %s" % (
                        show(x), "increases" if d == 1 else "decreases")
        return "no variant found"

    def pairs(self, new, val, m):
        if isinstance(new, T):
            if isinstance(val, T):
                m[new] = val
        elif isinstance(new, Bits):
            for a, b in zip(new.b, val.b):
                m[a] = b
        elif isinstance(new, Rec):
            for k in new.f:
                self.pairs(new.f[k], val.f[k], m)
        elif isinstance(new, SIter):
            m[new.i] = val.i
        elif hasattr(new, "pairs"):
            new.pairs(val, m)

    # ============================================================ functions
    def call_func(self, f, st, this, args, n):
        """args: LV or value per parameter; returns [(state, value)]"""
        con = self.contract_for(f)
        if con is not None and not self.cfg.concrete:
            self.used_contracts.add(con.name)
            return con.apply(self, f, st, this, args, n)
        if f.body is None or f.qual in self.cfg.no_body:
            raise Unsupported("no body for " + f.qual)
        if len(self.fn_stack) > self.cfg.max_depth or \
                (f in self.fn_stack and not self.cfg.concrete):
            raise Unsupported("recursion or inlining depth: " + f.qual)
        self.inlined.add(f.qual)
        base_pc, cells = list(st.pc), set(st.store)
        k0 = len(st.moves)
        outs = [(o.st, o.v) for o in self.run_func(f, st, this, args, n)]
        if any(len(s.moves) > k0 for s, _ in outs):
            return outs
        return self.merge(base_pc, cells, outs)

    def merge(self, base_pc, cells, outs):
        """join the outcomes of an inlined call: one state whose differing
        leaves are fresh symbols tied to the branches by a disjunction (exact,
        keeps the number of paths down)"""
        if len(outs) < 2 or self.cfg.concrete or not self.cfg.merge:
            return outs
        np = len(base_pc)
        v0 = outs[0][1]
        for s, v in outs:
            if s.pc[:np] != base_pc:
                return outs
            if isinstance(v, T):
                if not isinstance(v0, T) or v.sort != v0.sort:
                    return outs
            elif v is None:
                if v0 is not None:
                    return outs
            elif isinstance(v, SIter):
                if not isinstance(v0, SIter) or v.lv != v0.lv or \
                        v.rev != v0.rev or v.lv.cell not in cells:
                    return outs
            elif not (isinstance(v, LV) and v == v0 and v.cell in cells):
                return outs
        s0 = outs[0][0]
        lvs = []
        for s, v in outs[1:]:
            a = State()
            a.store = {c: s0.store[c] for c in cells}
            for lv in self.diff(a, s):
                if lv not in lvs:
                    lvs.append(lv)
        for lv in lvs:
            for s, v in outs:
                x = s.load(lv)
                y = s0.load(lv)
                if not (isinstance(x, T) and isinstance(y, T) and
                        x.sort == y.sort or
                        isinstance(x, Bits) and isinstance(y, Bits) or
                        isinstance(x, SIter) and isinstance(y, SIter) and
                        x.lv == y.lv and x.rev == y.rev):
                    return outs
        m = s0.copy()
        m.pc = list(base_pc)
        alts = [list(s.pc[np:]) for s, _ in outs]
        common = [c for c in alts[0] if all(c in a for a in alts[1:])]
        for c in common:
            m.assume(c)
        alts = [[c for c in a if c not in common] for a in alts]

        def join(vals):
            if all(x == vals[0] for x in vals):
                return vals[0]
            r = fresh("j", vals[0].sort)
            for a, x in zip(alts, vals):
                a.append(Eq(r, x))
            return r
        ret = v0
        if isinstance(v0, T):
            ret = join([v for _, v in outs])
        elif isinstance(v0, SIter):
            ret = SIter(v0.lv, join([v.i for _, v in outs]), v0.rev)
        for lv in lvs:
            xs = [s.load(lv) for s, _ in outs]
            if isinstance(xs[0], Bits):
                m.put(lv, Bits(join([x.b[k] for x in xs])
                               for k in range(len(xs[0].b))))
            elif isinstance(xs[0], SIter):
                m.put(lv, SIter(xs[0].lv, join([x.i for x in xs]),
                                xs[0].rev))
            else:
                m.put(lv, join(xs))
        m.assume(Or(*[And(*a) for a in alts]))
        return [(m, ret)]

    def contract_for(self, f):
        for c in self.cfg.contracts:
            if c.matches(f):
                # a contract that inserts or erases list elements is not
                # used at call sites: the body is looked through
                return None if "list+" in c.frame or not c.call else c
        return None

    def bind_params(self, f, st, args, n):
        env = {}
        for p, a in zip(f.params, args):
            t = p["type"]["qualType"]
            if a is DEFAULT:
                raise Unsupported("default argument of " + f.qual)
            if isref(t) or isref(ctype(p)):
                env[p["id"]] = a if isinstance(a, LV) else \
                    st.alloc(a, ctype(p))
            else:
                env[p["id"]] = st.alloc(self.rv(st, a), ctype(p))
        return env

    def run_func(self, f, st, this, args, n):
        """execute the body; exceptions go to the current sink"""
        saved_env, saved_this = st.env, st.this
        saved_tu, k0 = self.tu, len(st.moves)
        env = self.bind_params(f, st, args, n)
        if getattr(f, "tu", None) is not None:
            self.tu = f.tu
        st.env, st.this = env, this
        self.fn_stack.append(f)
        rr = getattr(self, "ret_ref", False)
        ret = f.ret
        m = re.search(r"-> (.*)$", f.type)
        if m:
            ret = m.group(1)
        self.ret_ref = isref(ret) or isref(norm_ret(f))
        nsink = len(self.sinks[-1]) if self.sinks else 0
        try:
            cur = [st]
            if f.kind == "CXXConstructorDecl":
                cur = self.ctor_inits(f, st)
            outs = []
            if f.body is not None:
                for s in cur:
                    outs.extend(self.stmt(f.body, s))
            else:
                outs = [Out("n", s) for s in cur]
            res = []
            for o in outs:
                if o.k not in ("n", "r"):
                    raise Unsupported("stray break/continue")
                o.st.env = dict(o.st.since(saved_env, k0))
                o.st.this = o.st.since(saved_this, k0)
                res.append(Out("r", o.st, o.v if o.k == "r" else None))
            if self.sinks:
                for s, e, nn in self.sinks[-1][nsink:]:
                    s.env = dict(s.since(saved_env, k0))
                    s.this = s.since(saved_this, k0)
            return res
        finally:
            self.fn_stack.pop()
            self.ret_ref = rr
            self.tu = saved_tu

    def ctor_inits(self, f, st):
        cls = self.tu.decl_qual.get((f.cls or {}).get("id"))
        cur = [st]
        done = set()
        this = st.this
        for ini in f.inits:
            e = ini["inner"][0] if ini.get("inner") else None
            nxt = []
            for s in cur:
                if "anyInit" in ini:
                    nm = ini["anyInit"]["name"]
                    done.add(nm)
                    ft = ini["anyInit"]["type"].get("qualType", "")
                    if e["kind"] == "CXXDefaultInitExpr" and not e.get(
                            "inner"):
                        nxt.append(s)       # set by blank_object
                        continue
                    for s2, v in self.ev(e, s):
                        if isref(ft):
                            s2.put(this.sub(nm), Ptr(v))
                        else:
                            s2.put(this.sub(nm), self.rv(s2, v))
                        nxt.append(s2)
                else:
                    for s2, v in self.ev(e, s):
                        v = self.rv(s2, v)
                        if isinstance(v, Rec):
                            cur_v = s2.load(this)
                            g = dict(cur_v.f)
                            g.update(v.f)
                            s2.put(this, Rec(cur_v.cls, g))
                        nxt.append(s2)
            cur = nxt
        return cur

    def ancestors(self, c):
        r = []
        for b in self.bases(c) if c in self.tu.classes else []:
            bc = self.find_class(b)
            if bc:
                r += [bc] + self.ancestors(bc)
        return r

    def blank_object(self, st, cls):
        fs = {}
        for b in self.bases(cls):
            bc = self.find_class(b)
            if bc:
                fs.update(self.blank_object(st, bc).f)
        for f in self.fields(cls):
            t = self.res_type(ctype(f))
            v = UNINIT
            init = [x for x in f.get("inner", []) if x.get("kind", "")
                    .endswith(("Expr", "Literal", "Operator"))]
            if init:
                r = self.ev(init[-1], st)
                if len(r) != 1:
                    raise Unsupported("forking member initialiser")
                v = self.rv(*r[0])
            elif t == "string" or re.match(r"(std::)?bitset", t):
                v = self.default_value(st, t)
            elif not (t in ("bool", "char") or int_info(t) or t.endswith("*")
                      or self.is_enum(t) is not None):
                d = self.lib.default(self, st, t)
                if d is not None:
                    v = d
                else:
                    c = self.find_class(t)
                    if c:
                        r = self.construct(st, c, "void ()", [], f)
                        if len(r) != 1:
                            raise Unsupported("forking default constructor")
                        v = r[0][1]
            fs[f["name"]] = v
        return Rec(cls, fs)

    def construct(self, st, cls, ctor_type, args, n):
        """[(state, value)]"""
        q = cls
        base = q.split("<")[0].split("::")[-1]
        cands = [f for tu in [self.tu] + list(getattr(self.tu, "others", []))
                 for f in tu.funcs if f.kind == "CXXConstructorDecl"
                 and f.cls is not None and
                 tu.decl_qual.get(f.cls.get("id")) == q]

        def sig(t):
            return re.sub(r"\s*noexcept.*$", "", t).replace(" ", "")
        ct = sig(ctor_type)
        f = [c for c in cands if sig(c.type) == ct]
        if not f and len(args) == 1 and re.search(r"&\)?", ct):
            v = self.rv(st, args[0])
            if isinstance(v, Rec) and (v.cls == q or q in self.ancestors(
                    v.cls)):
                # implicit copy / move
                return [(st, self.lib.copied(self, st, self.slice(v, q)))]
        if not f:
            c2 = [c for c in cands if len(c.params) == len(args)]
            if len(c2) == 1:
                f = c2
        if f:
            f = f[0]
            con = self.contract_for(f)
            obj = st.alloc(self.blank_object(st, q), q)
            if con is not None and not self.cfg.concrete:
                self.used_contracts.add(con.name)
                return [(s, s.load(obj)) for s, _ in
                        con.apply(self, f, st, obj, args, n)]
            self.inlined.add(f.qual)
            # default arguments
            args = self.fill_defaults(f, st, args)
            outs = self.run_func(f, st, obj, args, n)
            return [(o.st, o.st.load(obj)) for o in outs]
        if not args:
            return [(st, self.blank_object(st, q))]
        raise Unsupported("constructor %s %s" % (q, ctor_type))

    def fill_defaults(self, f, st, args):
        args = list(args)
        for i, p in enumerate(f.params):
            if i >= len(args) or args[i] is DEFAULT:
                init = None
                for q in self.param_decls(f, i):
                    ini = [x for x in q.get("inner", [])
                           if x.get("kind", "").endswith(
                               ("Expr", "Literal", "Operator"))]
                    if ini:
                        init = ini[-1]
                if init is None:
                    raise Unsupported("default argument of " + f.qual)
                r = self.ev(init, st)
                v = r[0][1]
                if i >= len(args):
                    args.append(v)
                else:
                    args[i] = v
        return args

    def param_decls(self, f, i):
        for did, n in self.tu.by_id.items():
            if n.get("kind") in FUNC_KINDS and \
                    n.get("mangledName") == f.mangled and "_func" in n:
                ps = n["_func"].params
                if i < len(ps):
                    yield ps[i]

    # ============================================================ expressions
    def ev(self, n, st):
        """[(state, LV or value)]"""
        m = getattr(self, "e_" + n["kind"], None)
        if m is None:
            raise Unsupported("%s at %s" % (n["kind"], self.where(n)))
        return m(n, st)

    def evs(self, ns, st):
        """evaluate several expressions left to right: [(state, [values])]"""
        cur = [(st, [])]
        for x in ns:
            nxt = []
            for s, vs in cur:
                k0 = len(s.moves)
                for s2, v in self.ev(x, s):
                    if len(s2.moves) > k0:
                        vs = list(s2.since(vs, k0))
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def pas(self, n, st):
        return self.ev(n["inner"][0], st)

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = pas
    e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = pas
    e_CXXRewrittenBinaryOperator = pas
    e_FullExpr = pas

    def e_CXXDefaultInitExpr(self, n, st):
        if n.get("inner"):
            return self.pas(n, st)
        raise Unsupported("default member initialiser")

    def e_CXXDefaultArgExpr(self, n, st):
        if n.get("inner"):
            return self.pas(n, st)
        return [(st, DEFAULT)]

    def e_MaterializeTemporaryExpr(self, n, st):
        out = []
        for s, v in self.ev(n["inner"][0], st):
            if isinstance(v, LV):
                out.append((s, v))
            else:
                out.append((s, s.alloc(v, ctype(n))))
        return out

    def e_IntegerLiteral(self, n, st):
        return [(st, I(int(n["value"])))]

    def e_CharacterLiteral(self, n, st):
        return [(st, I(int(n["value"]) % 256))]

    def e_CXXBoolLiteralExpr(self, n, st):
        return [(st, B(n["value"]))]

    def e_CXXNullPtrLiteralExpr(self, n, st):
        return [(st, Ptr(None))]

    def e_StringLiteral(self, n, st):
        return [(st, S(unescape(n["value"])))]

    def e_PredefinedExpr(self, n, st):
        return [(st, S("?"))]

    def e_SourceLocExpr(self, n, st):
        return [(st, S("?"))]

    def e_CXXThisExpr(self, n, st):
        return [(st, Ptr(st.this))]

    def e_ImplicitValueInitExpr(self, n, st):
        v = self.default_value(st, ctype(n))
        if v is None:
            raise Unsupported("value init " + ctype(n))
        return [(st, v)]

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    def e_DeclRefExpr(self, n, st):
        d = n["referencedDecl"]
        i = d["id"]
        if i in st.env:
            return [(st, st.env[i])]
        k = d["kind"]
        if k == "EnumConstantDecl":
            if i in self.tu.enums:
                return [(st, I(self.tu.enums[i]))]
            dn = self.tu.decl_like(("EnumConstantDecl",), d["name"],
                                   d["type"]["qualType"])
            if dn is not None:
                return [(st, I(self.tu.enums[dn["id"]]))]
            v = self.lib.enum_const(self, d)
            if v is not None:
                return [(st, I(v))]
        if k == "VarDecl":
            if d["name"] == "npos":
                return [(st, NPOS)]
            v = self.lib.global_var(self, st, d)
            if v is not None:
                return [(st, v)]
            dn = self.tu.by_id.get(i)
            if dn is not None and (dn.get("constexpr") or
                                   "const" in dn["type"]["qualType"]):
                ini = [x for x in dn.get("inner", []) if "kind" in x and
                       not x["kind"].endswith(("Attr", "Comment"))]
                if ini:
                    return self.ev(ini[-1], st)
        if k in FUNC_KINDS:
            return [(st, FnRef(i, d["name"], d["type"]["qualType"]))]
        raise Unsupported("reference to %s %s" % (k, d.get("name")))

    def e_MemberExpr(self, n, st):
        nm = n["name"]
        out = []
        for s, v in self.ev(n["inner"][0], st):
            if n.get("isArrow"):
                v = self.rv(s, v)
                if isinstance(v, Ptr):
                    self.obl(s, "null", B(v.lv is not None), n,
                             "null pointer dereference")
                    v = v.lv
                    if v is None:
                        continue
                else:
                    v = self.lib.deref(self, s, v, n)
            if not isinstance(v, LV):
                v = s.alloc(v)
            base = s.load(v)
            if hasattr(base, "member"):
                out.append((s, base.member(self, s, v, nm, n)))
                continue
            if isinstance(base, Rec) and nm in base.f:
                fv = base.f[nm]
                ft = self.field_type(base.cls, nm) or ""
                if isref(ft) and isinstance(fv, Ptr):
                    out.append((s, fv.lv))
                else:
                    out.append((s, v.sub(nm)))
                continue
            # static member
            d = self.tu.by_id.get(n.get("referencedMemberDecl"))
            if d is not None and d["kind"] in FUNC_KINDS:
                out.append((s, FnRef(d["id"], nm, d["type"]["qualType"])))
                continue
            raise Unsupported("member %s of %r" % (nm, base))
        return out

    # ------------------------------------------------------------- casts
    def cast(self, n, st):
        ck = n.get("castKind")
        if ck == "ToVoid":
            return [(s, None) for s, _ in self.ev(n["inner"][0], st)]
        sub = n["inner"][-1]
        out = []
        for s, v in self.ev(sub, st):
            if ck in ("LValueToRValue",):
                x = self.rv(s, v)
                if x is UNINIT:
                    self.obl(s, "uninit", FALSE, n,
                             "read of an uninitialised variable")
                    x = self.symbolic(s, ctype(n), "uninit")
                out.append((s, x))
            elif ck in ("NoOp", "FunctionToPointerDecay", "ArrayToPointerDecay",
                        "UserDefinedConversion", "ConstructorConversion",
                        "UncheckedDerivedToBase", "DerivedToBase",
                        "BuiltinFnToFnPtr", "BaseToDerived", "Dependent"):
                out.append((s, v))
            elif ck == "IntegralCast":
                x = self.rv(s, v)
                out.append((s, self.icast(s, x, ctype(sub), ctype(n), n)))
            elif ck == "IntegralToBoolean":
                out.append((s, self.truth(self.rv(s, v))))
            elif ck == "PointerToBoolean":
                out.append((s, self.truth(self.rv(s, v))))
            elif ck == "NullToPointer":
                out.append((s, Ptr(None)))
            elif ck == "BitCast":
                out.append((s, v))
            else:
                raise Unsupported("cast %s at %s" % (ck, self.where(n)))
        return out

    e_ImplicitCastExpr = e_CXXStaticCastExpr = e_CStyleCastExpr = cast
    e_CXXFunctionalCastExpr = e_CXXConstCastExpr = cast

    def icast(self, s, x, ft, tt, n):
        if not isinstance(x, T):
            return x
        f, t = self.res_type(ft), self.res_type(tt)
        if x.sort == "Bool":
            if t == "bool":
                return x
            return Ite(x, I(1), I(0))
        if t == "bool":
            return Ne(x, 0)
        if f == "char":
            x = SX(x)
        if t in ("char", "unsigned char"):
            return ToByte(x)
        ti = int_info(t)
        fi = int_info(f) or (True, 32)
        if f == "char":
            fi = (True, 8)
        if f == "unsigned char":
            fi = (False, 8)
        if ti is None:
            return x         # enum
        # value-preserving?
        flo = -(1 << (fi[1] - 1)) if fi[0] else 0
        fhi = (1 << (fi[1] - (1 if fi[0] else 0))) - 1
        tlo = -(1 << (ti[1] - 1)) if ti[0] else 0
        thi = (1 << (ti[1] - (1 if ti[0] else 0))) - 1
        if flo >= tlo and fhi <= thi:
            return x
        return self.wrap(s, x, ti)

    def wrap(self, s, x, ti):
        lo = -(1 << (ti[1] - 1)) if ti[0] else 0
        hi = (1 << (ti[1] - (1 if ti[0] else 0))) - 1
        M = 1 << ti[1]
        if x.op == "int":
            v = cv(x) % M
            if v > hi:
                v -= M
            return I(v)
        inr = And(Le(lo, x), Le(x, hi))
        if inr.op == "bool" and cv(inr):
            return x
        if not self.trial and self.known(s, inr):
            return x
        if self.trial:
            return x if self.known(s, inr) else self._wrapmod(x, lo, M)
        return Ite(inr, x, self._wrapmod(x, lo, M))

    def _wrapmod(self, x, lo, M):
        # one wrap-around in either direction, else general modulus
        return Ite(And(Le(lo - M, x), Lt(x, lo)), Add(x, M),
                   Ite(And(Le(lo + M, x), Lt(x, lo + 2 * M)), Sub(x, M),
                       Add(Mod(Sub(x, lo), I(M)), lo)))

    # ------------------------------------------------------------- operators
    def arith(self, s, x, typ, n, op):
        """finish an arithmetic result of C++ type typ"""
        t = self.res_type(typ)
        ti = int_info(t)
        if ti is None:
            return x
        if not ti[0]:
            return self.wrap(s, x, ti)
        if self.cfg.overflow and x.op != "int":
            lo, hi = -(1 << (ti[1] - 1)), (1 << (ti[1] - 1)) - 1
            g = And(Le(lo, x), Le(x, hi))
            if not self.trial and not (g.op == "bool" and cv(g)):
                self.obl(s, "overflow", g, n,
                         "signed overflow in '%s'" % op)
        return x

    def e_BinaryOperator(self, n, st):
        op = n["opcode"]
        a, b = n["inner"]
        if op in ("&&", "||"):
            return self.logic(n, st, op, a, b)
        if op == ",":
            out = []
            for s, _ in self.ev(a, st):
                out.extend(self.ev(b, s))
            return out
        if op == "=":
            out = []
            for s, vs in self.evs([b, a], st):
                self.write_ok(s, vs[1], n)
                s.put(vs[1], self.rv(s, vs[0]))
                out.append((s, vs[1]))
            return out
        out = []
        for s, (x, y) in self.evs([a, b], st):
            x, y = self.rv(s, x), self.rv(s, y)
            out.append((s, self.binop(s, op, x, y, ctype(n), ctype(a), n)))
        return out

    def write_ok(self, s, lv, n):
        if isinstance(lv, LV) and lv.path and lv.path[-1][0] == "at":
            base = s.load(LV(lv.cell, lv.path[:-1]))
            if isinstance(base, T) and base.sort == "Str":
                self.obl(s, "bounds", Lt(lv.path[-1][1], Len(base)), n,
                         "string element write in bounds")

    def binop(self, s, op, x, y, typ, otyp, n):
        if isinstance(x, (Ptr, SIter)) or isinstance(y, (Ptr, SIter)) or \
                not isinstance(x, T) or not isinstance(y, T):
            return self.lib.obj_binop(self, s, op, x, y, n)
        if x.sort == "Bool" and y.sort == "Int":
            x = Ite(x, 1, 0)
        if y.sort == "Bool" and x.sort == "Int":
            y = Ite(y, 1, 0)
        if op in ("==", "!="):
            e = Eq(x, y)
            return e if op == "==" else Not(e)
        if op == "<":
            return Lt(x, y)
        if op == "<=":
            return Le(x, y)
        if op == ">":
            return Lt(y, x)
        if op == ">=":
            return Le(y, x)
        if x.sort == "Bool":
            r = {"|": Or, "&": And}.get(op)
            if r:
                return r(x, y)
            if op == "^":
                return Ne(x, y)
        if op == "+":
            return self.arith(s, Add(x, y), typ, n, op)
        if op == "-":
            return self.arith(s, Sub(x, y), typ, n, op)
        if op == "*":
            return self.arith(s, Mul(x, y), typ, n, op)
        if op in ("/", "%"):
            self.obl(s, "div0", Ne(y, 0), n, "division by zero")
            return Div(x, y) if op == "/" else Mod(x, y)
        if op == "|" and x.sort == "Int":
            # bool | bool promoted to int (used by is_trivial)
            bx, by = as_bool01(x), as_bool01(y)
            if bx is not None and by is not None:
                return Ite(Or(bx, by), 1, 0)
            if x.op == "int" and y.op == "int":
                return I(cv(x) | cv(y))
        if op == "&" and x.sort == "Int":
            bx, by = as_bool01(x), as_bool01(y)
            if bx is not None and by is not None:
                return Ite(And(bx, by), 1, 0)
            if x.op == "int" and y.op == "int":
                return I(cv(x) & cv(y))
        if op in ("<<", ">>") and x.op == "int" and y.op == "int":
            return self.arith(s, I(cv(x) << cv(y) if op == "<<" else
                                   cv(x) >> cv(y)), typ, n, op)
        raise Unsupported("operator %s on %s at %s" % (op, x.sort,
                                                       self.where(n)))

    def logic(self, n, st, op, a, b):
        out = []
        for s, x in self.ev(a, st):
            x = self.truth(self.rv(s, x))
            if x.op == "bool":
                if cv(x) == (op == "||"):
                    out.append((s, x))
                else:
                    for s2, y in self.ev(b, s):
                        out.append((s2, self.truth(self.rv(s2, y))))
                continue
            # evaluate the right operand under the left one
            live = x if op == "&&" else Not(x)
            s1 = s.copy()
            s1.assume(live)
            if not self.feasible(s1):
                out.append((s, B(op == "||")))
                continue
            base = s1.copy()
            nsink = len(self.sinks[-1]) if self.sinks else 0
            r = self.ev(b, s1)
            pure = len(r) == 1 and \
                (not self.sinks or len(self.sinks[-1]) == nsink)
            if pure:
                s2, y = r[0]
                y = self.truth(self.rv(s2, y))
                if not self.diff(base, s2):
                    # conditional facts learnt while evaluating the rhs
                    for c in s2.pc:
                        if c not in base.pc:
                            s.assume(Implies(live, c))
                    for c, v in s2.store.items():
                        if c not in s.store:
                            s.store[c] = v
                    out.append((s, And(x, y) if op == "&&" else Or(x, y)))
                    continue
            # general case: fork
            for s2, y in r:
                out.append((s2, self.truth(self.rv(s2, y))))
            s.assume(Not(live))
            if self.feasible(s):
                out.append((s, B(op == "||")))
        return out

    def e_UnaryOperator(self, n, st):
        op = n["opcode"]
        out = []
        if op in ("++", "--"):
            for s, lv in self.ev(n["inner"][0], st):
                old = self.rv(s, lv)
                if old is UNINIT:
                    self.obl(s, "uninit", FALSE, n, "read of uninitialised")
                    old = self.symbolic(s, ctype(n["inner"][0]), "u")
                if isinstance(old, T):
                    d = 1 if op == "++" else -1
                    new = self.arith(s, Add(old, d), ctype(n["inner"][0]), n,
                                     op)
                else:
                    new = self.lib.advance(self, s, old, 1 if op == "++"
                                           else -1, n)
                s.put(lv, new)
                out.append((s, old if n.get("isPostfix") else lv))
            return out
        for s, v in self.ev(n["inner"][0], st):
            if op == "&":
                if not isinstance(v, LV):
                    v = s.alloc(v)
                out.append((s, Ptr(v)))
                continue
            x = self.rv(s, v)
            if op == "!":
                out.append((s, Not(self.truth(x))))
            elif op == "-":
                out.append((s, self.arith(s, Neg(x), ctype(n), n, op)))
            elif op in ("+", "__extension__"):
                out.append((s, x))
            elif op == "*":
                if isinstance(x, Ptr):
                    self.obl(s, "null", B(x.lv is not None), n,
                             "null pointer dereference")
                    if x.lv is not None:
                        out.append((s, x.lv))
                elif isinstance(x, (Closure, FnRef)):
                    out.append((s, x))
                else:
                    out.append((s, self.lib.deref(self, s, x, n)))
            elif op == "~" and x.op == "int":
                out.append((s, self.arith(s, I(~cv(x)), ctype(n), n, op)))
            else:
                raise Unsupported("unary " + op)
        return out

    def e_CompoundAssignOperator(self, n, st):
        op = n["opcode"][:-1]
        a, b = n["inner"]
        out = []
        for s, (y, lv) in self.evs([b, a], st):
            y = self.rv(s, y)
            x = self.rv(s, lv)
            if x is UNINIT:
                self.obl(s, "uninit", FALSE, n, "read of uninitialised")
                x = self.symbolic(s, ctype(a), "u")
            lt = ctype(a)
            ct = n.get("computeResultType", {})
            ct = ct.get("desugaredQualType") or ct.get("qualType") or lt
            xx = self.icast(s, x, lt, ct, n) if isinstance(x, T) else x
            r = self.binop(s, op, xx, y, ct, ct, n)
            if isinstance(r, T):
                r = self.icast(s, r, ct, lt, n)
            s.put(lv, r)
            out.append((s, lv))
        return out

    def e_ConditionalOperator(self, n, st):
        c, a, b = n["inner"]
        # assert(): expression whose failure branch calls __assert_fail
        if is_assert_fail(b):
            out = []
            for s, v in self.ev(c, st):
                v = self.truth(self.rv(s, v))
                self.obl(s, "assert", v, n, "assertion holds")
                if v.op == "bool" and not cv(v) and not self.cfg.concrete:
                    continue
                out.append((s, None))
            return out
        out = []
        for s, v in self.ev(c, st):
            v = self.truth(self.rv(s, v))
            br = self.fork(s, v)
            # try to merge scalar results
            res = []
            for s2, t in br:
                res.extend([(s3, x, t) for s3, x in
                            self.ev(a if t else b, s2)])
            out.extend([(s3, x) for s3, x, _ in res])
        return out

    def e_ArraySubscriptExpr(self, n, st):
        out = []
        for s, (x, i) in self.evs(n["inner"], st):
            x, i = self.rv(s, x), self.rv(s, i)
            out.append((s, self.lib.subscript(self, s, x, i, n)))
        return out

    def e_InitListExpr(self, n, st):
        t = self.res_type(ctype(n))
        inner = n.get("inner", [])
        if t in ("bool", "char") or int_info(t) or t.endswith("*") or \
                self.is_enum(t) is not None:
            if not inner:
                return [(st, self.default_value(st, t))]
            return self.ev(inner[0], st)
        if t == "string" and not inner:
            return [(st, S(""))]
        if t == "string" and len(inner) == 1 and \
                self.res_type(ctype(inner[0])) == "string":
            return self.ev(inner[0], st)
        if len(inner) == 1 and self.res_type(ctype(inner[0])) == t:
            # initialised from a value of the same type
            return [(s, self.rv(s, v)) for s, v in self.ev(inner[0], st)]
        c = self.find_class(t)
        if c:
            out = []
            fs = self.fields(c)
            for s, vs in self.evs(inner, st):
                out.append((s, Rec(c, {f["name"]: self.rv(s, v)
                                       for f, v in zip(fs, vs)})))
            return out
        out = []
        for s, vs in self.evs(inner, st):
            out.append((s, ListVal([self.rv(s, v) for v in vs])))
        return out

    def e_CXXStdInitializerListExpr(self, n, st):
        return self.pas(n, st)

    def e_CXXConstructExpr(self, n, st):
        t = self.res_type(ctype(n))
        ct = n.get("ctorType", {}).get("qualType", "")
        args = n.get("inner", [])
        out = []
        for s, vs in self.evs(args, st):
            r = self.lib.construct(self, s, t, ct, vs,
                                   [ctype(a) for a in args], n)
            if r is not None:
                out.extend(r)
                continue
            c = self.find_class(t)
            if c is None:
                raise Unsupported("construct %s (%s)" % (t, ct))
            out.extend(self.construct(s, c, ct, vs, n))
        return out

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXThrowExpr(self, n, st):
        inner = n.get("inner", [])
        if not inner:
            self.throw(st, getattr(self, "cur_exc", "rethrow"), n)
            return []
        t = self.res_type(ctype(inner[0]))
        self.throw(st, t, n)
        return []

    def e_LambdaExpr(self, n, st):
        # operator() of the closure class
        op = None
        for x in n.get("inner", []):
            if x.get("kind") == "CXXRecordDecl":
                for y in x.get("inner", []):
                    if y.get("kind") == "CXXMethodDecl" and \
                            y.get("name") == "operator()":
                        op = y
        if op is None:
            raise Unsupported("generic lambda")
        f = op.get("_func")
        if f is None:
            from .ast import Func
            f = Func(op, "lambda@%s" % self.where(n), None, file_of(n))
        return [(st, Closure(f, dict(st.env), st.this))]

    # ------------------------------------------------------------- calls
    def callee_name(self, n):
        while n.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            n = n["inner"][0]
        return n

    def e_CallExpr(self, n, st):
        cal = self.callee_name(n["inner"][0])
        args = n["inner"][1:]
        if cal["kind"] == "DeclRefExpr":
            d = cal["referencedDecl"]
            return self.dispatch(n, st, d["id"], d["name"],
                                 d["type"]["qualType"], args, None)
        out = []
        for s, v in self.ev(cal, st):
            v = self.rv(s, v)
            for s2, vs in self.evs(args, s):
                out.extend(self.call_value(s2, v, vs, n))
        return out

    def call_value(self, s, v, vs, n):
        if isinstance(v, Closure):
            se, stt, k0 = s.env, s.this, len(s.moves)
            f = v.func
            env = dict(v.env)
            env.update(self.bind_params(f, s, vs, n))
            s.env, s.this = env, v.this
            self.fn_stack.append(f)
            rr = getattr(self, "ret_ref", False)
            self.ret_ref = isref(f.ret)
            try:
                outs = self.stmt(f.body, s)
            finally:
                self.fn_stack.pop()
                self.ret_ref = rr
            res = []
            for o in outs:
                o.st.env = dict(o.st.since(se, k0))
                o.st.this = o.st.since(stt, k0)
                res.append((o.st, o.v if o.k == "r" else None))
            return res
        if isinstance(v, FnRef):
            f = self.tu.func_by_decl(v.decl, v.name, v.type)
            if f is not None:
                return self.call_func(f, s, None, vs, n)
            r = self.lib.call(self, s, v.name, vs, [], n)
            if r is not None:
                return r
        raise Unsupported("call of %r" % (v,))

    def dispatch(self, n, st, did, name, typ, args, this_node):
        out = []
        for s, vs in self.evs(args, st):
            r = self.lib.pre_call(self, s, did, name, typ, vs,
                                  [ctype(a) for a in args], n)
            if r is not None:
                out.extend(r)
                continue
            f = self.lookup(did, name, typ)
            if f is not None:
                this = None
                vs2 = self.fill_defaults(f, s, vs) if DEFAULT in vs or \
                    len(vs) < len(f.params) else vs
                out.extend(self.call_func(f, s, this, vs2, n))
                continue
            r = self.lib.call(self, s, name, vs, [ctype(a) for a in args], n)
            if r is None:
                raise Unsupported("call of %s (%s) at %s" %
                                  (name, typ, self.where(n)))
            self.lib_used.add(name)
            out.extend(r)
        return out

    def lookup(self, did, name, typ):
        f = self.tu.func_by_decl(did, None, None)
        if f is not None:
            return f
        if did in self.tu.by_id:
            return self.cross_tu(self.tu.by_id[did])
        f = self.tu.func_by_decl(did, name, typ)
        if f is not None:
            return f
        d = self.tu.decl_like(FUNC_KINDS, name, typ)
        if d is not None:
            return self.cross_tu(d)
        # a function outside the dumped namespaces
        if self.lib.knows(name):
            return None
        if name not in self.tu.fetched:
            self.tu.fetch(name)
            f = self.tu.func_by_decl(did, name, typ)
            return f
        return self.tu.func_by_decl(did, name, typ)

    def cross_tu(self, decl):
        """definition in another translation unit"""
        m = decl.get("mangledName")
        for tu in getattr(self.tu, "others", []):
            if m in tu.def_of:
                return tu.def_of[m]
        q = self.tu.decl_qual.get(decl["id"], "")
        if q.startswith("FLPR"):
            raise Unsupported("no definition of %s in the loaded sources" % q)
        return None

    def e_CXXMemberCallExpr(self, n, st):
        me = self.callee_name(n["inner"][0])
        args = n["inner"][1:]
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call through " + me["kind"])
        name = me["name"]
        base = me["inner"][0]
        out = []
        for s, bv in self.ev(base, st):
            if me.get("isArrow"):
                bv = self.rv(s, bv)
                if isinstance(bv, Ptr):
                    self.obl(s, "null", B(bv.lv is not None), n,
                             "null pointer dereference")
                    if bv.lv is None:
                        continue
                    bv = bv.lv
                else:
                    bv = self.lib.deref(self, s, bv, n)
            elif not isinstance(bv, LV):
                bv = s.alloc(bv, ctype(base))
            for s2, vs in self.evs(args, s):
                out.extend(self.member_call(s2, bv, name, vs,
                                            [ctype(a) for a in args], me, n))
        return out

    def member_call(self, s, lv, name, vs, ats, me, n):
        did = me.get("referencedMemberDecl")
        f = self.tu.func_by_decl(did) if did else None
        if f is None and did in self.tu.by_id:
            f = self.cross_tu(self.tu.by_id[did])
        if f is None:
            v = s.load(lv)
            if isinstance(v, Rec):
                f = self.tu.method_of(v.cls, name, len(vs))
                if f is None:
                    for tu in self.tu.others:
                        f = f or tu.method_of(v.cls, name, len(vs))
        r = self.lib.pre_method(self, s, lv, name, vs, ats, f, n)
        if r is not None:
            return r
        if f is not None and not (f.implicit and f.body is None):
            if DEFAULT in vs or len(vs) < len(f.params):
                vs = self.fill_defaults(f, s, vs)
            return self.call_func(f, s, None if f.static else lv, vs, n)
        if name == "operator=" and len(vs) == 1 and isinstance(
                s.load(lv), Rec) and isinstance(self.rv(s, vs[0]), Rec):
            self.assign(s, lv, s.load(lv), self.rv(s, vs[0]),
                        ctype(me["inner"][0]).rstrip(" *"), n)
            return [(s, lv)]
        r = self.lib.method(self, s, lv, name, vs, ats, n)
        if r is None:
            raise Unsupported("method %s of %r at %s" % (
                name, type(s.load(lv)).__name__, self.where(n)))
        return r

    def all_fields(self, c):
        r = [f["name"] for f in self.fields(c)]
        for b in self.bases(c):
            bc = self.find_class(b)
            if bc:
                r = self.all_fields(bc) + r
        return r

    def slice(self, v, cls):
        """the part of an object value that belongs to class cls"""
        if v.cls == cls:
            return v
        return Rec(cls, {k: v.f[k] for k in self.all_fields(cls)
                         if k in v.f})

    def assign(self, s, lv, x0, v, typ, n):
        """implicit copy or move assignment of (a base part of) an object"""
        c = self.find_class(self.res_type(typ)) or x0.cls
        v = self.lib.copied(self, s, self.slice(v, c))
        if c == x0.cls:
            s.put(lv, v)
        else:
            g = dict(x0.f)
            g.update(v.f)
            s.put(lv, Rec(x0.cls, g))

    def e_CXXOperatorCallExpr(self, n, st):
        cal = self.callee_name(n["inner"][0])
        d = cal.get("referencedDecl", {})
        name = d.get("name", "")
        args = n["inner"][1:]
        out = []
        # assignment-like operators evaluate the right operand first
        order = list(range(len(args)))
        for s, vs in self.evs(args, st):
            f = self.tu.func_by_decl(d.get("id"))
            if f is None and d.get("id") in self.tu.by_id:
                f = self.cross_tu(self.tu.by_id[d["id"]])
            if f is None and d.get("id") not in self.tu.by_id and \
                    isinstance(self.rv(s, vs[0]), Rec):
                dd = self.tu.decl_like(FUNC_KINDS, name, d.get(
                    "type", {}).get("qualType"))
                if dd is not None:
                    f = self.tu.func_by_decl(dd["id"]) or self.cross_tu(dd)
            r = self.lib.pre_operator(self, s, name, vs,
                                      [ctype(a) for a in args], f, n)
            if r is not None:
                out.extend(r)
                continue
            if f is not None and not f.implicit and f.body is not None:
                if d["kind"] == "CXXMethodDecl" and not f.static:
                    lv = vs[0]
                    if not isinstance(lv, LV):
                        lv = s.alloc(lv)
                    x = s.load(lv)
                    if isinstance(x, Closure):
                        out.extend(self.call_value(s, x, vs[1:], n))
                        continue
                    out.extend(self.call_func(f, s, lv, vs[1:], n))
                else:
                    out.extend(self.call_func(f, s, None, vs, n))
                continue
            x0 = self.rv(s, vs[0])
            if isinstance(x0, Closure) and name == "operator()":
                out.extend(self.call_value(s, x0, vs[1:], n))
                continue
            r = self.lib.operator(self, s, name, vs,
                                  [ctype(a) for a in args], n)
            if r is not None:
                out.extend(r)
                continue
            if name == "operator=" and isinstance(vs[0], LV) and \
                    len(vs) == 2:
                v = self.rv(s, vs[1])
                if isinstance(x0, Rec) and isinstance(v, Rec):
                    self.assign(s, vs[0], x0, v, ctype(args[0]), n)
                    out.append((s, vs[0]))
                    continue
            raise Unsupported("operator %s (%s) at %s" % (
                name, d.get("type", {}).get("qualType"), self.where(n)))
        return out


DBG = os.environ.get("VERIF_LOOPS")


class ConcreteFault(Exception):
    pass


class ListVal:
    def __init__(self, xs):
        self.xs = xs


_PRIM = {"bool", "char", "string", "void"}


def norm_ret(f):
    return f.ret


def as_bool01(x):
    if x.op == "int" and cv(x) in (0, 1):
        return B(cv(x))
    if x.op == "ite" and x.args[1] == I(1) and x.args[2] == I(0):
        return x.args[0]
    return None


def is_assert_fail(n):
    while n.get("kind") in ("ImplicitCastExpr", "ParenExpr",
                            "ExprWithCleanups"):
        n = n["inner"][0]
    if n.get("kind") != "CallExpr":
        return False
    c = n["inner"][0]
    while c.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
        c = c["inner"][0]
    return c.get("kind") == "DeclRefExpr" and \
        c["referencedDecl"]["name"] == "__assert_fail"


def unescape(v):
    v = v[v.index('"') + 1:-1]
    out, i = [], 0
    M = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "\\": "\\", '"': '"',
         "'": "'", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}
    while i < len(v):
        if v[i] == "\\":
            c = v[i + 1]
            if c == "x":
                m = re.match(r"[0-9a-fA-F]+", v[i + 2:])
                out.append(chr(int(m.group(0), 16) % 256))
                i += 2 + len(m.group(0))
                continue
            m = re.match(r"[0-7]{1,3}", v[i + 1:])
            if m:
                out.append(chr(int(m.group(0), 8) % 256))
                i += 1 + len(m.group(0))
                continue
            out.append(M.get(c, c))
            i += 2
            continue
        out.append(v[i])
        i += 1
    return "".join(out)


class LoopCtx:
    """what an invariant template may look at"""

    def __init__(self, ex, node, entry, head, hv, cond):
        self.ex, self.node, self.entry, self.head = ex, node, entry, head
        self.hv = hv            # (lv, entry value, head symbol, C++ type)
        self.cond_terms = []
        self.body_terms = []
        if cond is not None:
            s = head.copy()
            rec, ex.record = ex.record, False
            ex.sinks.append([])
            ex.trial += 1
            try:
                for s2, v in ex.ev(cond, s):
                    v = ex.rv(s2, v)
                    if isinstance(v, T):
                        self.cond_terms.append(v)
            except Unsupported:
                pass
            finally:
                ex.trial -= 1
                ex.sinks.pop()
                ex.record = rec

    def mod(self, pred):
        """modified leaves (entry, head) whose type satisfies pred"""
        out = []
        for lv, old, new, t in self.hv:
            if isinstance(new, T) and isinstance(old, T):
                if pred(new, self.ex.res_type(t) if t else ""):
                    out.append((old, new))
            elif isinstance(new, SIter):
                if pred(new.i, "iter"):
                    out.append((old.i, new.i))
        return out

    def ints(self):
        return self.mod(lambda v, t: v.sort == "Int" and t != "char")

    def iters(self):
        """modified iterators (list, entry, head) and the unmodified ones"""
        mod = [(old.lv, old.i, new.i) for _, old, new, _ in self.hv
               if isinstance(new, SIter) and isinstance(old, SIter)]
        mods = {lv for lv, _, _, _ in self.hv}
        keep = []
        for lv, v in self.ex.leaves(self.entry, self.entry.store):
            if isinstance(v, SIter) and lv not in mods and not any(
                    k[0] == v.lv and k[1] == v.i for k in keep):
                keep.append((v.lv, v.i))
        return mod, keep

    def chars(self):
        return self.mod(lambda v, t: v.sort == "Int" and t == "char")

    def bools(self):
        return self.mod(lambda v, t: v.sort == "Bool")

    def strs(self):
        return self.mod(lambda v, t: v.sort == "Str")

    def arrays(self):
        return self.mod(lambda v, t: v.sort.startswith("A_"))

    def vecs(self):
        """modified sequences (entry value, value at the loop head)"""
        out = []
        for lv, old, new, t in self.hv:
            path = lv.path
            while path and path[-1][0] in ("vn", "va") and not isinstance(
                    path[-1], str):
                path = path[:-1]
            base = LV(lv.cell, path)
            try:
                o, h = self.entry.load(base), self.head.load(base)
            except Exception:
                continue
            if hasattr(o, "arrs") and hasattr(h, "arrs") and not any(
                    b == base for b, _, _ in out):
                out.append((base, o, h))
                g = getattr(self.ex, "orig", {}).get(base.cell)
                if g is not None:
                    # the value when the function was entered
                    try:
                        for q in base.path:
                            g = self.entry._get(g, q)
                        if g is not o and hasattr(g, "arrs"):
                            out.append((base, g, h))
                    except Exception:
                        pass
        return [(o, h) for _, o, h in out]

    def stable(self, sort):
        """unmodified values of a sort visible in the state"""
        mods = {lv for lv, _, _, _ in self.hv}
        out = []
        seen = set()
        for lv, v in self.ex.leaves(self.entry, self.entry.store):
            if lv in mods or not isinstance(v, T) or v.sort != sort:
                continue
            if v in seen:
                continue
            seen.add(v)
            out.append(v)
        return out


def conjuncts(t):
    if t.op == "and":
        for x in t.args:
            yield from conjuncts(x)
    else:
        yield t


def basic_pool(ctx):
    """bounds: from the entry value, from the loop condition and from lengths"""
    ints = ctx.ints()
    heads = {h for _, h in ints}
    for old, h in ints:
        yield Le(old, h)
        yield Le(h, old)
    strs = ctx.stable("Str")
    for old, h in ints:
        for s in strs[:6]:
            if s.op != "str":
                yield Le(h, Len(s))
    for c in ctx.cond_terms:
        for a in conjuncts(c):
            if a.op in ("<", "<="):
                yield Le(a.args[0], a.args[1])
                yield Le(Sub(a.args[0], 1), a.args[1])
            if a.op == "not" and a.args[0].op == "=" and \
                    a.args[0].args[0].sort == "Int":
                x, y = a.args[0].args
                yield Le(x, y)
                yield Le(y, x)
            # character classes scanned over
            yield from class_cands(a, ints)
            # everything scanned over so far satisfied the condition
            yield from scan_cands(a, ints)
    for a0 in ctx.body_terms:
        for a in (a0, Not(a0)):
            yield from scan_cands(a, ints)
            yield from match_cands(a, ints)
    for old, h in ctx.strs():
        yield Eq(Len(h), Len(old))
        yield Le(Len(old), Len(h))
    sb = ctx.stable("Int")
    for old, h in ints:
        for v in sb[:10]:
            if v.op == "int":
                continue
            yield Le(h, v)
    # iterators stay between the other iterators into the same list
    mod, keep = ctx.iters()
    for lv, old, h in mod:
        for l2, i in keep[:8]:
            if l2 == lv:
                yield Le(h, i)
                yield Le(i, h)
    # differences between counters moving in step
    for i in range(len(ints)):
        for j in range(len(ints)):
            if i < j:
                yield Eq(Sub(ints[i][1], ints[j][1]),
                         Sub(ints[i][0], ints[j][0]))
                yield Eq(Add(ints[i][1], ints[j][1]),
                         Add(ints[i][0], ints[j][0]))


def scan_cands(a, ints):
    subs = set()
    subterms(a, subs)
    if not any(t.op == "sel" for t in subs):
        return
    for old, h in ints:
        if h in subs:
            yield AllK(old, h, lambda k: subst(a, {h: k}))
            yield AllK(Add(h, 1), Add(old, 1), lambda k: subst(a, {h: k}))
            yield Or(Eq(h, old), subst(a, {h: Sub(h, 1)}))
            yield Or(Eq(h, old), subst(a, {h: Add(h, 1)}))


def match_cands(a, ints):
    """a second counter holds the last (first) index at which a held"""
    subs = set()
    subterms(a, subs)
    for old, h in ints:
        if h not in subs:
            continue
        at = lambda k: subst(a, {h: k})
        for o2, g in ints:
            if g == h or g in subs:
                continue
            yield Or(Eq(g, o2), And(at(g), Lt(g, h)))
            yield And(at(g), Or(Lt(g, h), Eq(g, o2)))
            yield AllK(Add(g, 1), h, lambda k: Not(at(k)))
            yield Or(Lt(g, h), Eq(g, o2))
            yield Or(Eq(g, o2), AllK(old, g, lambda k: Not(at(k))))


def disj(t):
    if t.op == "or":
        for x in t.args:
            yield from disj(x)
    else:
        yield t


def class_cands(a, ints):
    """all characters between the entry value of an index and its current
    value satisfy the part of the loop condition that reads s[index]"""
    subs = set()
    subterms(a, subs)
    for t in subs:
        if t.op == "code":
            for old, h in ints:
                if t.args[1] == h:
                    k = Var("cls!c", "Int")
                    p = subst(a, {t: k})
                    s2 = set()
                    subterms(p, s2)
                    if any(x.op == "var" and x != k for x in s2):
                        continue
                    chars = "".join(
                        chr(x) for x in range(256)
                        if subst(p, {k: I(x)}) == TRUE)
                    yield AllIn(t.args[0], old, h, chars)
