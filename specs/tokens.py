"""Contracts of the ascii tokenizer.

A text is the part of an array A before L; X says whether markup is recognised.
ST(A,L,X,i): start of the first token at or after i (L if none); NX: where the
token starting there ends; TK(A,L,X,o,k): start of token number k counted from o."""
import z3
from cov.ex import Contract, PMem, sel
from cov.types_ import INT
from cov.smt import forall
from cov.cast import params_of as params
from .codec import AS, CH, SZ, AD, mem, setup, fits, blockloc, MAXN

B = z3.BoolSort()


def fn(nm, *extra):
    return z3.Function(nm, AS, INT, *extra, INT, INT), z3.Function(nm + "'", AS, INT, *extra, INT, INT)


WE, WEl = fn("word.end")
TC, TCl = fn("tag.name.end")
GT, GTl = fn("tag.close")
SC, SCl = fn("entity.close")
TAG, _ = fn("tag")
ENT, _ = fn("entity")
ST, STl = fn("token.start", B)
NX, _ = fn("token.end", B)
TK = z3.Function("token.at", AS, INT, B, INT, INT, INT)
TKl = z3.Function("token.at'", AS, INT, B, INT, INT, INT)
A_, L_, X_, i, k, m = z3.Const("A!t", AS), z3.Int("L!t"), z3.Const("X!t", B), z3.Int("i!t"), z3.Int("k!t"), z3.Int("m!t")
o_ = z3.Int("o!t")
C = "cottontail::AsciiTokenizer"


def alpha(x):
    return z3.Or(z3.And(x >= 0x41, x <= 0x5A), z3.And(x >= 0x61, x <= 0x7A))


def alnum(x):
    return z3.Or(alpha(x), z3.And(x >= 0x30, x <= 0x39))


def among(x, s):
    return z3.Or([x == ord(c) for c in s])


def run(F, Fl, go):
    """F(i): the first position from i on where go no longer holds"""
    a = (A_, L_)
    return [z3.ForAll([A_, L_, i], z3.And(F(A_, L_, i) == Fl(A_, L_, i), F(A_, L_, i) == z3.If(i >= L_, i, z3.If(go(z3.Select(A_, i)), Fl(A_, L_, i + 1), i))), patterns=[F(A_, L_, i)])]


def defs():
    s = z3.Select
    q = z3.If(z3.And(i + 1 < L_, s(A_, i + 1) == ord("/")), i + 2, i + 1)
    q2 = TC(A_, L_, q + 1)
    r = GT(A_, L_, q2)
    tag = z3.And(s(A_, i) == ord("<"), q < L_, z3.Or(alpha(s(A_, q)), s(A_, q) == ord("_")), q2 < L_, s(A_, q2) != 10, r < L_, s(A_, r) == ord(">"))
    e = SC(A_, L_, i + 1)
    a = (A_, L_)
    nxt = z3.If(z3.And(X_, s(A_, i) == ord("&"), e < L_, s(A_, e) == ord(";")), e, i) + 1
    stop = z3.Or(alnum(s(A_, i)), z3.And(X_, TAG(A_, L_, i) >= 0))
    prev = TKl(A_, L_, X_, o_, k - 1)
    return run(WE, WEl, alnum) + run(TC, TCl, lambda x: z3.Or(alnum(x), among(x, "-_."))) + \
        run(GT, GTl, lambda x: z3.Not(among(x, "\n>"))) + run(SC, SCl, lambda x: z3.Not(among(x, " \n;"))) + [
        z3.ForAll([A_, L_, i], TAG(A_, L_, i) == z3.If(tag, r, z3.IntVal(-1)), patterns=[TAG(A_, L_, i)]),
        z3.ForAll([A_, L_, X_, i], z3.And(ST(A_, L_, X_, i) == STl(A_, L_, X_, i), ST(A_, L_, X_, i) == z3.If(i >= L_, i, z3.If(stop, i, STl(A_, L_, X_, nxt)))), patterns=[ST(A_, L_, X_, i)]),
        z3.ForAll([A_, L_, X_, i], NX(A_, L_, X_, i) == z3.If(i >= L_, i, z3.If(alnum(s(A_, i)), WE(A_, L_, i), TAG(A_, L_, i) + 1)), patterns=[NX(A_, L_, X_, i)]),
        z3.ForAll([A_, L_, X_, o_, k], z3.And(TK(A_, L_, X_, o_, k) == TKl(A_, L_, X_, o_, k), TK(A_, L_, X_, o_, k) == z3.If(k <= 0, ST(A_, L_, X_, o_), ST(A_, L_, X_, NX(A_, L_, X_, prev)))), patterns=[TK(A_, L_, X_, o_, k)]),
    ]


def stays(A, L, X, o, k, m):
    return z3.Implies(z3.And(k <= m, k >= 0, TK(A, L, X, o, k) == L), TK(A, L, X, o, m) == L)


def lemmas():
    """proved by lemma_goals"""
    return [z3.ForAll([A_, L_, X_, o_, k, m], stays(A_, L_, X_, o_, k, m), patterns=[z3.MultiPattern(TK(A_, L_, X_, o_, k), TK(A_, L_, X_, o_, m))])]


def lemma_goals():
    A, L, X, o, n, a, b = z3.Const("A!l", AS), z3.Int("L!l"), z3.Const("X!l", B), z3.Int("o!l"), z3.Int("n!l"), z3.Int("a!l"), z3.Int("b!l")
    D = defs()
    rng = lambda F: (lambda i: z3.Implies(i <= L, z3.And(F(A, L, i) >= i, F(A, L, i) <= L)))
    inr = lambda i: z3.Implies(i <= L, z3.And(ST(A, L, X, i) >= i, ST(A, L, X, i) <= L))
    idem = lambda i: z3.Implies(i <= L, ST(A, L, X, ST(A, L, X, i)) == ST(A, L, X, i))
    after = lambda i: z3.Implies(z3.And(i >= 0, i <= L, ST(A, L, X, i) == i), z3.And(NX(A, L, X, i) <= L, NX(A, L, X, i) >= i))
    allj = lambda P, t, lo=None: z3.ForAll([k], z3.Implies(k > lo, P(k)) if lo is not None else P(k), patterns=[t(k)])
    out = [("past the last token (step)", D + [n >= 0, a >= n, stays(A, L, X, o, n, a)], stays(A, L, X, o, n, a + 1)), ("past the last token (base)", D, stays(A, L, X, o, n, n))]
    G = []
    for nm, F, Fl in (("word", WE, WEl), ("tag name", TC, TCl), ("tag", GT, GTl), ("entity", SC, SCl)):
        out.append(("a %s ends inside the text (from the end down)" % nm, D + [rng(F)(n + 1)], rng(F)(n)))
        out.append(("a %s ends inside the text (at the end)" % nm, D, rng(F)(L)))
        G.append(allj(rng(F), lambda j, F=F: F(A, L, j)))
    out += [("the next token is inside the text (from the end down)", D + G + [allj(inr, lambda j: STl(A, L, X, j), n), z3.ForAll([k], STl(A, L, X, k) == ST(A, L, X, k), patterns=[STl(A, L, X, k)])], inr(n)),
            ("a token's start is where it is found (from the end down)", D + G + [allj(idem, lambda j: STl(A, L, X, j), n), z3.ForAll([k], STl(A, L, X, k) == ST(A, L, X, k), patterns=[STl(A, L, X, k)])], idem(n)),
            ("a token ends inside the text", D + G + [n >= 0, allj(inr, lambda j: STl(A, L, X, j)), z3.ForAll([k], STl(A, L, X, k) == ST(A, L, X, k), patterns=[STl(A, L, X, k)])], after(n))]
    inr_, idem_, after_ = (allj(P, t) for P, t in ((inr, lambda j: ST(A, L, X, j)), (idem, lambda j: ST(A, L, X, j)), (after, lambda j: NX(A, L, X, j))))
    tin = lambda j: z3.And(ST(A, L, X, TK(A, L, X, o, j)) == TK(A, L, X, o, j), TK(A, L, X, o, j) >= o, TK(A, L, X, o, j) <= L)
    two = lambda j: TK(A, L, X, TK(A, L, X, o, n), j) == TK(A, L, X, o, n + j)
    out += [("every token is inside the text (base)", D + [inr_, idem_, o <= L, o >= 0], tin(z3.IntVal(0))),
            ("every token is inside the text (step)", D + [inr_, idem_, after_, o >= 0, o <= L, a >= 0, tin(a)], tin(a + 1)),
            ("skipping in two steps (base, none)", D + [inr_, idem_, o <= L, n == 0], two(z3.IntVal(0))),
            ("skipping in two steps (base)", D + [inr_, idem_, after_, o >= 0, o <= L, n > 0, tin(n - 1)], two(z3.IntVal(0))),
            ("skipping in two steps (step)", D + [inr_, idem_, after_, o >= 0, o <= L, n >= 0, a >= 0, tin(n), two(a)], two(a + 1)),
            ("a later token does not start before an earlier one ends", D + [inr_, idem_, after_, o >= 0, o <= L, a >= 0, tin(a)], TK(A, L, X, o, a + 1) >= NX(A, L, X, TK(A, L, X, o, a)))]
    return out


def parts(c):
    p = c["buffer"]
    A = mem(c.ex, c.pre, p)
    return A, p.off + c["length"], c.ex.as_bool(c.fld(c.pre, "xml_")), p.off


def pre(c):
    A, L, X, o = parts(c)
    return [("text is there", z3.And(fits(c.ex, c["buffer"], c["length"]), c["length"] <= MAXN)), ] + [("definition", f) for f in defs() + lemmas()]


def apart(lc):
    """pointers; counters"""
    ptrs, ints = [], []
    for nm, g in lc.ints():
        t = lc._names[nm].t
        if t[0] == "ptr":
            ptrs.append((nm, g))
        elif t == AD:
            ints.append((nm, g))
    return ptrs, ints


def at_token(lc, A, L, X, o, count):
    """where the pointers are"""
    out = []
    ptrs, ints = apart(lc)
    for nm, g in ptrs:
        if lc.modified(nm):
            out.append(("%s inside" % nm, lambda st, g=g: z3.And(g(st) >= o, g(st) <= L)))
            for tag, F in (("word", WE), ("name", TC), ("tag", GT), ("entity", SC)):
                out.append(("%s: same %s end" % (nm, tag), lambda st, g=g, F=F: F(A, L, g(st)) == F(A, L, g(lc.entry))))
            for n2, g2 in ints:
                if True:
                    out.append(("token %s from %s" % (n2, nm), lambda st, g=g, g2=g2: z3.And(count(g2(st)) >= 0, ST(A, L, X, g(st)) == TK(A, L, X, o, count(g2(st))))))
                    out.append(("%s is token %s" % (nm, n2), lambda st, g=g, g2=g2: z3.And(g(st) == TK(A, L, X, o, count(g2(st))))))
    return out


def skip():
    def post(c):
        A, L, X, o = parts(c)
        return [("same block", c.ret.blk == c["buffer"].blk), ("stops at the start of token n, or the end", c.ret.off == TK(A, L, X, o, c["n"]))]

    def inv(c, lc):
        A, L, X, o = parts(c)
        return at_token(lc, A, L, X, o, lambda n: c["n"] - n)
    return Contract(C + "::skip_", ["buffer", "length", "n"], pre=lambda c: pre(c) + [("a number of tokens", c["n"] >= 0)], post=post, inv=inv,
                    ret=lambda c: PMem(CH, c["buffer"].blk, z3.Const(c.ex.name("ret.off"), INT)), setup=setup([("buffer", ("ptr", CH)), ("length", SZ), ("n", AD)]))


def tokenize():
    """entry t of the result has address d[t], offset s[t], length w[t]"""
    def rows(v):
        v = v.d
        D = v["data"].d
        return v["len"], (lambda t: z3.Select(D["address"], t)), (lambda t: z3.Select(D["offset"], t)), (lambda t: z3.Select(D["length"], t))

    def right(c, v, upto=None):
        A, L, X, o = parts(c)
        n, d, s, w = rows(v)
        tk = lambda t: TK(A, L, X, o, d(t))
        all_ = lambda f: forall([m], z3.Implies(z3.And(m >= 0, m < n), f(m)), [d(m)])
        return n, d, [("where token d starts", all_(lambda t: z3.And(s(t) + o == tk(t), d(t) >= 0))), ("and as long", all_(lambda t: z3.And(w(t) + tk(t) == NX(A, L, X, tk(t))))),
                      ("the first is token 0", z3.Implies(n > 0, d(0) == 0)),
                      ("each is followed by itself or the next", forall([m], z3.Implies(z3.And(m > 0, m < n), z3.And(d(m - 1) <= d(m), d(m) <= d(m - 1) + 1)), [d(m)]))]

    def post(c):
        A, L, X, o = parts(c)
        n, d, fs = right(c, c.ret)
        return fs + [("none is left", TK(A, L, X, o, z3.If(n > 0, d(n - 1) + 1, z3.IntVal(0))) == L)]

    def inv(c, lc):
        A, L, X, o = parts(c)
        ex = lc.ex
        out = at_token(lc, A, L, X, o, lambda n: n)
        p = c["buffer"]
        M = lambda st: mem(ex, st, p)
        ptrs, ints = apart(lc)
        for nm, g in ptrs:
            out.append(("text as given from %s on" % nm, lambda st, g=g: forall([i], z3.Implies(z3.And(i >= g(st), i < L), z3.Select(M(st), i) == z3.Select(A, i)), [z3.Select(M(st), i), z3.Select(A, i)])))
        for nm, g in ints:
            out.append(("%s is not negative" % nm, lambda st, g=g: g(st) >= 0))
        for nm, l in lc.cells():
            if l.t and l.t[0] == "vec":
                V = lambda st, l=l: ex.read(l, st, facts=False)
                for x in range(4):
                    out.append(("%s: row %d" % (nm, x), lambda st, V=V, x=x: right(c, V(st))[2][x][1]))
                for n2, g in ints:
                    out.append(("%s: the last is before %s" % (nm, n2), lambda st, V=V, g=g: z3.And(V(st).d["len"] >= 0, z3.Implies(V(st).d["len"] > 0, rows(V(st))[1](V(st).d["len"] - 1) == g(st) - 1), z3.Implies(V(st).d["len"] == 0, g(st) == 0))))
        return out

    def feat(c):
        pass
    return Contract(C + "::tokenize_", ["featurizer", "buffer", "length"], pre=lambda c: pre(c) + [("a featurizer", c["featurizer"] > 0)], post=post, inv=inv, ret=None,
                    setup=lambda ex, f, this: [ex.fresh(ex.ty(params(f)[0]), "featurizer")] + setup([("buffer", ("ptr", CH)), ("length", SZ)])(ex, f, this), mods=lambda c: [blockloc(c["buffer"])], opts={"cand_ms": 8000})


def featurizer():
    return {"cottontail::Featurizer::featurize": [Contract("cottontail::Featurizer::featurize", ["key", "length"], ret=AD, assumed=True)]}
