"""Contracts for TT_Stream: a cursor over the tokens of one statement.

The list the stream's iterators point into is a sequence of tokens; an
iterator is a position in it (cxxvc/lists.py).  A stream is well formed when
its range [b, e) lies before the list's sentry and its size is e - b.
"""
from cxxvc.contract import Contract, Clause
from contracts.file_line import Mapped
from cxxvc.strlib import *
from cxxvc.terms import *
from cxxvc.values import Unsupported, SIter, Rec

SRC = "TT_Stream.cc"
CL = "FLPR::TT_Stream"
P = ("C18",)
C = []
TRUST = ["TT_Stream::e_expect_tok/e_expect_eol/e_expect_id/e_general print a "
         "message and do not return (they end in exit)",
         "Syntax_Tags::is_keyword is a function of the tag alone"]
IS_KW = T("var", ("is_keyword",), ASort("Bool"))
IS_NAME = T("var", ("is_name",), ASort("Bool"))


def tag(v, name):
    return I(v.ex.enum_value("Syntax_Tags::" + name))


class Rng:
    """a range of tokens (SL_Range)"""

    def __init__(self, v, f, new=False):
        if not isinstance(f.get("begin_"), SIter) or not isinstance(
                f.get("end_"), SIter) or "size_" not in f or \
                "bad_" not in f:
            raise Unsupported("SL_Range representation changed")
        self.it = f["begin_"]
        self.b, self.e = f["begin_"].i, f["end_"].i
        self.size, self.bad = f["size_"], f["bad_"]
        self.seq = v.seq(self.it, new)
        if f["end_"].lv != self.it.lv:
            raise Unsupported("range over two lists")

    def wf(self):
        n = self.seq.length
        return [("the range lies in the list, its size is that of the range",
                 And(Not(self.bad), Le(0, self.b), Eq(
                     Add(self.b, self.size), self.e), Le(0, self.size),
                     Lt(self.e, n)))]


class Strm:
    def __init__(self, v, rec, new=False):
        f = rec._v.f
        self.r = Rng(v, f["ll_tt_range_"].f, new)
        self.f = f["ll_tt_range_"].f
        nt = f["next_tok_"]
        if not isinstance(nt, SIter) or nt.lv != self.r.it.lv:
            raise Unsupported("TT_Stream representation changed")
        self.next = nt.i
        self.b, self.e = self.r.b, self.r.e
        self.seq = self.r.seq

    def arr(self, *k):
        if tuple(k) not in self.seq.arrs:
            raise Unsupported("Token_Text representation changed")
        return self.seq.arrs[tuple(k)]

    def tok(self, k):
        return Sel(self.arr("token"), k)

    def wf(self):
        return self.r.wf() + [("the cursor lies in the range", And(
            Le(self.b, self.next), Le(self.next, self.e)))]


def S0(v):
    return Strm(v, v.this)


def S1(v):
    return Strm(v, v.this_new, True)


def same_range(a, b):
    out = []
    for k in a.f:
        x, y = a.f[k], b.f[k]
        if isinstance(x, SIter):
            if x.lv != y.lv:
                raise Unsupported("range moved to another list")
            x, y = x.i, y.i
        out.append(Eq(x, y))
    return And(*out)


def moved(v, to, note="the cursor"):
    """only the cursor changed, and where it is now"""
    a, b = S0(v), S1(v)
    return Clause(note, And(same_range(a, b), Eq(b.next, to(a))), P)


def cur(v, a):
    return Ite(Lt(a.b, a.next), a.tok(Sub(a.next, 1)), tag(v, "BAD"))


def nxt(v, a):
    return Ite(Lt(a.next, a.e), a.tok(a.next), tag(v, "BAD"))


def add(name, params, requires=None, own=True, cls=CL, **k):
    req = requires or (lambda v: [])
    C.append(Contract(cls + "::" + name, params, src=SRC, requires=(
        lambda v: S0(v).wf() + req(v)) if own else req, **k))


def ret(f, note, **k):
    return dict(ensures=lambda v: [Clause(note, (
        Iff if v.ret.sort == "Bool" else Eq)(v.ret, f(v, S0(v))), P)], **k)


def at(a, k, rv):
    """the token value rv is the k-th of the list"""
    return And(*[Eq(rv.f[x[0]], Sel(a.arr(*x), k)) for x in a.seq.arrs
                 if x in (("token",), ("start_line",), ("start_pos",),
                          ("text_",), ("lower_",))])


def is_bad(v, rv):
    return And(Eq(rv.f["token"], tag(v, "BAD")), Eq(rv.f["text_"], ""))


add("curr", [], **ret(cur, "the token before the cursor, BAD at the start"))
add("curr_tt", [], ensures=lambda v: [
    Clause("the token before the cursor", Implies(Lt(S0(v).b, S0(v).next), at(
        S0(v), Sub(S0(v).next, 1), v.ret._v)), P),
    Clause("a BAD token at the start", Implies(Eq(
        S0(v).b, S0(v).next), is_bad(v, v.ret._v)), P)])
add("peek", [], **ret(nxt, "the token after the cursor, BAD at the end"))


def _peek_at(v, a):
    return Sub(Add(a.next, v.old(0)), 1)


def _peek_req(v):
    return [("not before the start", Le(S0(v).b, _peek_at(v, S0(v))))]


add("peek", ["int"], requires=_peek_req, **ret(lambda v, a: Ite(Lt(
    _peek_at(v, a), a.e), a.tok(_peek_at(v, a)), tag(v, "BAD")),
    "the offset-th token after the cursor, BAD beyond the end"))
add("peek_tt", ["int"], requires=_peek_req, ensures=lambda v: [
    Clause("the offset-th token after the cursor", Implies(Lt(
        _peek_at(v, S0(v)), S0(v).e), at(
            S0(v), _peek_at(v, S0(v)), v.ret._v)), P),
    Clause("a BAD token beyond the end", Implies(Le(
        S0(v).e, _peek_at(v, S0(v))), is_bad(v, v.ret._v)), P)])
add("peek_back", [], **ret(lambda v, a: Ite(Lt(a.b, a.e), a.tok(Sub(
    a.e, 1)), tag(v, "BAD")), "the last token, BAD for no tokens"))
add("num_consumed", [], **ret(lambda v, a: Sub(a.next, a.b),
                              "the number of tokens before the cursor"))


def _in(v, k):
    a = S0(v)
    return And(Le(a.b, Add(a.next, k)), Le(Add(a.next, k), a.e))


add("consume", ["int"], frame=("this.next_tok_",), requires=lambda v: [
    ("stays in the list", And(Le(0, Add(S0(v).next, v.old(0))), Le(
        Add(S0(v).next, v.old(0)), S0(v).seq.length)))],
    ensures=lambda v: [moved(v, lambda a: Add(a.next, v.old(0)))])
add("consume_until_eol", [], frame=("this.next_tok_",), ensures=lambda v: [
    moved(v, lambda a: a.e)])
add("put_back", [], frame=("this.next_tok_",), ensures=lambda v: [
    moved(v, lambda a: Ite(Lt(a.b, a.next), Sub(a.next, 1), a.next))])
add("rewind", [], frame=("this.next_tok_",), ensures=lambda v: [
    moved(v, lambda a: a.b)])


def _iter(v, x):
    if not isinstance(x, SIter) or x.lv != S0(v).r.it.lv:
        raise Unsupported("iterator parameter")
    return x.i


add("rewind", ["std::_List_iterator<FLPR::Token_Text>"], frame=("this.next_tok_",),
    ensures=lambda v: [moved(v, lambda a: _iter(v, v.old(0)))])
add("mark", [], ensures=lambda v: [Clause(
    "where the cursor is", Eq(_iter(v, v.ret), S0(v).next), P)])
add("next_iterator", [], ensures=lambda v: [Clause(
    "where the cursor is", Eq(_iter(v, v.ret), S0(v).next), P)])


def _range_ret(v, lo, hi):
    a = S0(v)
    f = v.ret._v.f
    r = Rng(v, f, True)
    out = [r.wf()[0][1], Eq(r.b, lo), Eq(r.e, hi), f["ll_set_"]]
    lr, l0 = f["line_ref_"], a.f["line_ref_"]
    if not isinstance(lr, SIter) or lr.lv != l0.lv:
        raise Unsupported("line of the range")
    return And(Eq(lr.i, l0.i), *out)


add("digest", ["int"], frame=("this.next_tok_",), requires=lambda v: [
    ("tokens that are there", And(Le(0, v.old(0)), _in(v, v.old(0)))),
    ("line", S0(v).f["ll_set_"])],
    ensures=lambda v: [
        moved(v, lambda a: Add(a.next, v.old(0))),
        Clause("the range of the consumed tokens, on the same line",
               _range_ret(v, S0(v).next, Add(S0(v).next, v.old(0))), P)])


def _is_eol(v):
    a = S0(v)
    semi = And(Lt(a.next, a.e), Eq(a.tok(a.next), tag(v, "TK_SEMICOLON")))
    return semi


add("is_eol", [], frame=("this.next_tok_",), ensures=lambda v: [
    Clause("true at the end and at a semicolon", Iff(v.ret, Or(
        Eq(S0(v).next, S0(v).e), _is_eol(v))), P),
    moved(v, lambda a: Ite(_is_eol(v), Add(a.next, 1), a.next),
          "a semicolon is consumed, nothing else")])

# ------------------------------------------------------------ expectations
for _n, _p in (("e_expect_tok", ["int", "int"]), ("e_expect_eol", []),
               ("e_expect_id", ["int"]), ("e_general", ["const char *"])):
    C.append(Contract(CL + "::" + _n, _p, src=SRC, noreturn=True,
                      verify=False))


def _returns_only(v, cond):
    return Clause("it returns only when the expectation is met", cond, P)


add("expect_tok", ["int"], frame=("this.next_tok_",), requires=lambda v: [
    ("a token", Ne(v.old(0), tag(v, "BAD")))],
    ensures=lambda v: [
        _returns_only(v, And(Lt(S0(v).next, S0(v).e), Eq(
            S0(v).tok(S0(v).next), v.old(0)))),
        moved(v, lambda a: Add(a.next, 1))])
add("expect_eol", [], frame=("this.next_tok_",), ensures=lambda v: [
    _returns_only(v, Or(Eq(S0(v).next, S0(v).e), _is_eol(v))),
    moved(v, lambda a: Ite(_is_eol(v), Add(a.next, 1), a.next))])


def _expect_id(field):
    return dict(frame=("this.next_tok_",), ensures=lambda v: [
        _returns_only(v, And(Lt(S0(v).next, S0(v).e), Eq(
            S0(v).tok(S0(v).next), tag(v, "TK_NAME")))),
        moved(v, lambda a: Add(a.next, 1)),
        Clause("the text of the consumed token", Eq(v.ret, Sel(
            S0(v).arr(field), S0(v).next)), P)])


add("expect_id", [], **_expect_id("text_"))

def _low_ok(text, low):
    return And(Lt(Len(text), 1 << 28), Or(Eq(low, ""), Eq(
        low, MapCase("lower", text))))


def _low_inv(v, a):
    return ("the lower-case texts belong to the texts", AllK(
        a.b, a.e, lambda k: _low_ok(Sel(a.arr("text_"), k), Sel(
            a.arr("lower_"), k))))


def only_lower(v, x, y):
    return Clause("the tokens are kept", And(Eq(x.length, y.length), AllK(
        0, x.length, lambda k: And(*[
            Eq(Sel(x.arrs[f], k), Sel(y.arrs[f], k)) for f in x.arrs
            if f in y.arrs and f != ("lower_",)]))), P)


add("expect_id_low", [], frame=("this.next_tok_", "list"),
    requires=lambda v: [_low_inv(v, S0(v))], ensures=lambda v: [
        _returns_only(v, And(Lt(S0(v).next, S0(v).e), Eq(
            S0(v).tok(S0(v).next), tag(v, "TK_NAME")))),
        moved(v, lambda a: Add(a.next, 1)),
        Clause("the text of the consumed token in lower case", Eq(
            v.ret, MapCase("lower", Sel(S0(v).arr("text_"), S0(v).next))), P),
        only_lower(v, S0(v).seq, S1(v).seq)])


def _lower(v):
    f = v.this._v.f
    g = v.this_new._v.f
    return [Clause("the text in lower case", Eq(v.ret, MapCase(
        "lower", f["text_"])), P),
        Clause("remembered", Or(Eq(g["lower_"], v.ret), Eq(
            f["text_"], "")), P)]


C.append(Contract(
    "FLPR::Token_Text::lower", [], src="Token_Text.cc",
    frame=("this.lower_",), requires=lambda v: [(
        "the lower-case text belongs to the text", _low_ok(
            v.this._v.f["text_"], v.this._v.f["lower_"]))], ensures=_lower))
C.append(Contract("FLPR::Syntax_Tags::is_keyword", ["int"],
                  src="Token_Text.cc", verify=False, ensures=lambda v: [
                      Clause("", Iff(v.ret, Sel(IS_KW, v.old(0))), P)]))


def _unkey_terms(v):
    b, e, n = v.old(0), v.old(1), v.old(2)
    if not isinstance(b, SIter) or not isinstance(e, SIter) or b.lv != e.lv:
        raise Unsupported("unkeyword parameters")
    x, y = v.seq(b), v.seq(b, True)
    hi = Ite(And(Le(0, n), Lt(Add(b.i, n), e.i)), Add(b.i, n), e.i)
    return b.i, hi, x, y


def kw_map(v, x, y, lo, hi):
    """tokens lo..hi of y: those of x with every keyword made a name"""
    a, b = x.arrs[("token",)], y.arrs[("token",)]
    nm = tag(v, "TK_NAME")
    return [
        Clause("every keyword in reach becomes a name", AllK(
            lo, hi, lambda k: Eq(Sel(b, k), Ite(
                Sel(IS_KW, Sel(a, k)), nm, Sel(a, k)))), P),
        Clause("nothing else changes", And(
            Eq(x.length, y.length),
            AllK(0, lo, lambda k: Eq(Sel(b, k), Sel(a, k))),
            AllK(hi, x.length, lambda k: Eq(Sel(b, k), Sel(a, k))),
            *[AllK(0, x.length, lambda k, f=f: Eq(Sel(x.arrs[f], k), Sel(
                y.arrs[f], k))) for f in x.arrs if f != ("token",)]), P)]


def _unkey_req(v):
    b, e, n = v.old(0), v.old(1), v.old(2)
    if not isinstance(b, SIter) or not isinstance(e, SIter) or b.lv != e.lv:
        raise Unsupported("unkeyword parameters")
    return [("a range of the list", And(Le(0, b.i), Le(b.i, e.i), Lt(
        e.i, v.seq(b).length))), ("a count", Le(-1, n))]


C.append(Contract(
    "FLPR::unkeyword", ["std::_List_iterator<FLPR::Token_Text>",
                        "std::_List_iterator<FLPR::Token_Text>", "int"],
    src="Token_Text.cc", frame=("list",), requires=_unkey_req,
    ensures=lambda v: kw_map(v, *(lambda t: (t[2], t[3], t[0], t[1]))(
        _unkey_terms(v)))))


def _unkey_this(v):
    a, b = S0(v), S1(v)
    n = v.old(0)
    hi = Ite(And(Le(0, n), Lt(Add(a.next, n), a.e)), Add(a.next, n), a.e)
    return kw_map(v, a.seq, b.seq, a.next, hi)


add("unkeyword", ["int"], frame=("list",), requires=lambda v: [
    ("a count", Le(-1, v.old(0)))], ensures=_unkey_this)

# ------------------------------------------------------------ captures
CAP = CL + "::Capture"


def cap(v, x):
    f = x._v.f
    if not isinstance(f["beg_"], SIter):
        raise Unsupported("Capture")
    return f["complete_"], f["beg_"], f["end_"]


def _cap_b(v):
    c, b, e = cap(v, v.ret)
    return [Clause("an open capture that starts at the cursor", And(
        Not(c), Eq(_iter(v, b), S0(v).next)), P)]


def _cap_e(v):
    c, b, e = cap(v, v.new(0))
    c0, b0, e0 = cap(v, v.old(0))
    if b0.lv != b.lv:
        raise Unsupported("Capture")
    return [Clause("the capture ends at the cursor and keeps its start", And(
        c, Eq(b.i, b0.i), Eq(_iter(v, e), S0(v).next)), P)]


def cap_wf(v, x):
    c, b, e = cap(v, x)
    if b.lv != e.lv:
        raise Unsupported("Capture")
    return [("a complete capture is a range", Implies(c, And(
        Le(0, b.i), Le(b.i, e.i), Lt(e.i, v.seq(b).length))))]


add("capture_begin", [], ensures=_cap_b)
add("capture_end", ["TT_Stream::Capture"], frame=(0,), ensures=_cap_e)
add("empty", [], cls=CAP, own=False, requires=lambda v: cap_wf(v, v.this),
    ensures=lambda v: (lambda c, b, e: [Clause(
        "no tokens between start and end, or not complete", Iff(
            v.ret, Or(Not(c), Eq(b.i, e.i))), P)])(*cap(v, v.this)))
add("size", [], cls=CAP, own=False, requires=lambda v: cap_wf(v, v.this),
    ensures=lambda v: (lambda c, b, e: [Clause(
        "the number of tokens between start and end", Eq(v.ret, Ite(
            c, Sub(e.i, b.i), 0)), P)])(*cap(v, v.this)))
add("capture_to_range", ["TT_Stream::Capture"], requires=lambda v: [
    ("complete", cap(v, v.old(0))[0]), ("line", S0(v).f["ll_set_"])] +
    cap_wf(v, v.old(0)), ensures=lambda v: [Clause(
        "the range of the captured tokens, on the same line", _range_ret(
            v, cap(v, v.old(0))[1].i, cap(v, v.old(0))[2].i), P)])

# ------------------------------------------------------------ matching pairs


class Depth:
    """ghost: nesting depth before each token, counted from the start of the
    list (defined by recursion over the positions)"""

    def __init__(self, v, a, op, cl):
        arr = a.arr("token")
        if arr.op != "var":
            raise Unsupported("token table")
        self.a, self.v, self.op, self.cl = a, v, op, cl
        self.d = T("var", ("depth_%s_of_%s" % (op, arr.args[0]),),
                   ASort("Int"))

    def at(self, k):
        return Sel(self.d, k)

    def defs(self):
        a = self.a
        o, c = tag(self.v, self.op), tag(self.v, self.cl)
        return [Eq(self.at(a.b), 0),
                AllK(a.b, a.e, lambda k: Eq(
                    self.at(Add(k, 1)), Ite(
                        Eq(a.tok(k), o), Add(self.at(k), 1), Ite(
                            Eq(a.tok(k), c), Sub(self.at(k), 1),
                            self.at(k)))))]


PAREN = ("TK_PARENL", "TK_PARENR")
BRACK = ("TK_BRACKETL", "TK_BRACKETR")


def _no_bad(v):
    a = S0(v)
    return ("the tokens are known", AllK(a.b, a.e, lambda k: Ne(
        a.tok(k), tag(v, "BAD"))))


def closes(d, i, j):
    """position j holds the close of the pair opened at i"""
    return And(Lt(i, j), Lt(j, d.a.e), Eq(d.at(Add(j, 1)), d.at(i)),
               AllK(Add(i, 1), Add(j, 1), lambda k: Lt(d.at(i), d.at(k))))


def _close(pair, before):
    def ens(v):
        a, b = S0(v), S1(v)
        d = Depth(v, a, *pair)
        i = a.next
        end = b.next if before else Sub(b.next, 1)
        return [
            _returns_only(v, And(Lt(i, a.e), Eq(a.tok(i), tag(v, pair[0])))),
            Clause("the range is kept", same_range(a, b), P),
            Clause("true: the cursor is at the matching close",
                   Implies(v.ret, closes(d, i, end)), P),
            Clause("false: nothing matches, the cursor is at the end",
                   Implies(Not(v.ret), And(Eq(b.next, a.e), AllK(
                       Add(i, 1), Add(a.e, 1), lambda k: Lt(
                           d.at(i), d.at(k))))), P)]
    return dict(frame=("this.next_tok_",), ensures=ens, requires=lambda v: [_no_bad(v)],
                defs=lambda v: Depth(v, S0(v), *pair).defs())


add("move_to_close_paren", [], **_close(PAREN, False))
add("move_before_close_paren", [], **_close(PAREN, True))
add("ignore_bracket_expr", [], **_close(BRACK, False))


def _open_ens(v):
    a, b = S0(v), S1(v)
    d = Depth(v, a, *PAREN)
    p = a.next
    is_close = And(Lt(a.b, p), Eq(a.tok(Sub(p, 1)), tag(v, "TK_PARENR")))
    j = Sub(b.next, 1)
    return [
        Clause("the range is kept", same_range(a, b), P),
        Clause("false and no move unless the current token is a close", Implies(
            Not(is_close), And(Not(v.ret), Eq(b.next, p))), P),
        Clause("true: the current token is the matching open", Implies(
            v.ret, And(Le(a.b, j), Lt(j, p), Eq(d.at(j), d.at(p)), Eq(
                a.tok(j), tag(v, "TK_PARENL")),
                AllK(Add(j, 1), p, lambda k: Lt(d.at(p), d.at(k))))), P),
        Clause("false: nothing matches, the cursor is at the start", Implies(
            And(is_close, Not(v.ret)), And(Eq(b.next, a.b), AllK(
                a.b, p, lambda k: Lt(d.at(p), d.at(k))))), P)]


add("move_to_open_paren", [], frame=("this.next_tok_",), ensures=_open_ens,
    requires=lambda v: [_no_bad(v)],
    defs=lambda v: Depth(v, S0(v), *PAREN).defs())


def pool(ctx):
    """the counter is the depth at the cursor relative to the start, which
    stays positive on the way"""
    seqs = [x for c in ctx.ex.list_cells if c in ctx.entry.store
            for x in [ctx.entry.store[c]] if hasattr(x, "arrs") and
            ("token",) in x.arrs]
    its = ctx.mod(lambda x, t: t == "iter")
    ints = [(o, h) for o, h in ctx.ints() if (o, h) not in its]
    for s in seqs:
        arr = s.arrs[("token",)]
        if arr.op != "var":
            continue
        for op in ("TK_PARENL", "TK_BRACKETL"):
            d = T("var", ("depth_%s_of_%s" % (op, arr.args[0]),),
                  ASort("Int"))
            for oi, i in its:
                f = Sub(oi, 1)          # the open, just consumed
                for on, nd in ints:
                    yield Eq(nd, Sub(Sel(d, i), Sel(d, f)))
                    yield Le(nd, Add(Sub(i, oi), 1))
                    yield Le(nd, Add(Sub(oi, i), 1))
                    yield Le(0, nd)
                    # on the way back
                    yield Eq(nd, Sub(Sel(d, Sub(i, 1)), Sel(d, oi)))
                yield AllK(oi, i, lambda k: Lt(Sel(d, f), Sel(d, k)))
                yield AllK(oi, Add(i, 1), lambda k: Lt(Sel(d, f), Sel(d, k)))
                yield AllK(i, oi, lambda k: Lt(Sel(d, oi), Sel(d, k)))
                # stopped at the match without consuming it
                ends = [x for l, x in ctx.iters()[1][:8]]
                for on, nd in ints:
                    yield Implies(Lt(0, nd), Eq(nd, Sub(
                        Sel(d, i), Sel(d, f))))
                    for e in ends:
                        yield Or(Lt(0, nd), Lt(e, i))
                        yield Or(Lt(0, nd), And(Eq(nd, 0), Lt(i, e), Eq(
                            Sel(d, Add(i, 1)), Sel(d, f))))
    if its:
        for o, h in ints:
            yield Or(Lt(o, 0), Le(0, h))
    for o, i in its:
        for x, y in ctx.vecs():
            if ("token",) not in x.arrs:
                continue
            a, b = x.arrs[("token",)], y.arrs[("token",)]
            nm = I(ctx.ex.enum_value("Syntax_Tags::TK_NAME"))
            yield AllK(o, i, lambda k: Eq(Sel(b, k), Ite(
                Sel(IS_KW, Sel(a, k)), nm, Sel(a, k))))
            yield AllK(0, o, lambda k: Eq(Sel(a, k), Sel(b, k)))
            yield AllK(i, x.length, lambda k: Eq(Sel(a, k), Sel(b, k)))
    for o, h in ctx.strs():
        for s in ctx.stable("Str")[:4]:
            for _, i in ctx.ints():
                yield Mapped("lower", h, s, I(0), i)
