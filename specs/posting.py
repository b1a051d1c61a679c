"""Contracts of posting lists.

A list of n triples: start P[i]; end Q[i] if the ends are kept apart, else P[i];
value F[i] if values are kept, else 0.  The optional lists are empty or as long
as the list of starts."""
import z3
from cov.ex import Contract as Contract0, PVar, It, Loc
from cov.types_ import Rec, INT
from cov import stl
from cov.smt import forall
from .hoppers import MIN, MAX, sig_n

SP = "cottontail::SimplePosting"
SPF = "cottontail::SimplePostingFactory"
AD, SZ, FV = ("int", 64, True), ("int", 64, False), ("fval",)


def Contract(*a, **kw):
    c = Contract0(*a, **kw)
    c.opts = dict(c.opts, axioms=axioms)
    return c


i, j, k = z3.Ints("i!q j!q k!q")
BIG = 1 << 50


AS = z3.ArraySort(INT, INT)
QEND = z3.Function("end", INT, AS, AS, INT, INT)
FVAL = z3.Function("value", INT, AS, INT, INT)


def axioms(ex):
    n, A, B = z3.Int("n!ax"), z3.Const("A!ax", AS), z3.Const("B!ax", AS)
    return [z3.ForAll([n, A, B, i], QEND(n, A, B, i) == z3.If(n > 0, z3.Select(A, i), z3.Select(B, i)), patterns=[QEND(n, A, B, i)]),
            z3.ForAll([n, A, i], FVAL(n, A, i) == z3.If(n > 0, z3.Select(A, i), z3.IntVal(0)), patterns=[FVAL(n, A, i)])]


class L:
    """a posting list in a state"""

    def __init__(self, ex, st, x):
        o = ex.obj(x, SP)
        g = lambda n: ex.read(ex.field(o, n), st, facts=False)
        p, q, f = g("postings_"), g("qostings_"), g("fostings_")
        self.n, self.P = p.d["len"], p.d["data"]
        self.lq, self.Q = q.d["len"], q.d["data"]
        self.lf, self.F = f.d["len"], f.d["data"]
        self.feature = g("feature_")
        self.ref = x

    def p(self, a):
        return z3.Select(self.P, a)

    def q(self, a):
        return QEND(self.lq, self.Q, self.P, a)

    def v(self, a):
        return FVAL(self.lf, self.F, a)

    def wf(self):
        return z3.And(self.n >= 0, self.n <= BIG, z3.Or(self.lq == 0, self.lq == self.n), z3.Or(self.lf == 0, self.lf == self.n))

    def pats(self, a):
        return [z3.Select(self.P, a), z3.Select(self.Q, a), z3.Select(self.F, a), self.q(a), self.v(a)]


def veq(got, want):
    """the same number: a negative zero may come back as zero"""
    return z3.Or(got == want, z3.And(want == MIN, got == 0))


def same(new, a, old, b, exact=True):
    return z3.And(new.p(a) == old.p(b), new.q(a) == old.q(b), (new.v(a) == old.v(b)) if exact else veq(new.v(a), old.v(b)))


def kept(new, old, n=None):
    n = old.n if n is None else n
    return forall([i], z3.Implies(z3.And(i >= 0, i < n), same(new, i, old, i)), new.pats(i) + [z3.Select(old.P, i)])


def this(c, st):
    return L(c.ex, st, c.this.root[2])


def plocs(c, x):
    o = c.ex.obj(x, SP)
    return [c.ex.field(o, n) for n in ("postings_", "qostings_", "fostings_")]


def get():
    def pre(c):
        return [("well formed", this(c, c.pre).wf())]

    def post(c):
        t = this(c, c.pre)
        at = lambda n: c.at(c.post, n)
        r = c.ex.as_bool(c.ret)
        return [("in the list", r == (c["index"] < t.n)),
                ("start", z3.Implies(r, at("p") == t.p(c["index"]))), ("end", z3.Implies(r, at("q") == t.q(c["index"]))), ("value", z3.Implies(r, at("v") == t.v(c["index"])))]
    return Contract(SP + "::get", ["index", "p", "q", "v"], pre=pre, post=post, mods=lambda c: [c.loc(n) for n in "pqv"], ret=("bool",))


def push():
    def pre(c):
        t = this(c, c.pre)
        return [("well formed", t.wf()), ("an interval", c["p"] <= c["q"]), ("room", t.n < BIG)]

    def post(c):
        t, u = this(c, c.pre), this(c, c.post)
        return [("well formed", u.wf()), ("one longer", u.n == t.n + 1), ("others kept", kept(u, t)),
                ("start", u.p(t.n) == c["p"]), ("end", u.q(t.n) == c["q"]), ("value", veq(u.v(t.n), c["v"]))]
    return Contract(SP + "::push", ["p", "q", "v"], pre=pre, post=post, mods=lambda c: plocs(c, c.this.root[2]), opts={"memory": ["room"]})


def append():
    def m(c, st):
        return L(c.ex, st, c["more"])

    def pre(c):
        t, o = this(c, c.pre), m(c, c.pre)
        return [("well formed", z3.And(t.wf(), o.wf())), ("two lists", c["more"] != t.ref), ("another list is there", c["more"] > 0), ("one feature", t.feature == o.feature),
                ("room", t.n + o.n <= BIG)]

    def post(c):
        t, o, u = this(c, c.pre), m(c, c.pre), this(c, c.post)
        return [("well formed", u.wf()), ("length", u.n == t.n + o.n), ("first part kept", kept(u, t)),
                ("second part", forall([i], z3.Implies(z3.And(i >= t.n, i < u.n), same(u, i, o, i - t.n)), u.pats(i)))]
    return Contract(SP + "::append", ["more"], pre=pre, post=post, mods=lambda c: plocs(c, c.this.root[2]))


def contracts():
    return {c.q: c for c in (get(), push(), append())}


# ------------------------------------------------------------- from runs of records
CNT, CNTL = z3.Function("kept.before", INT, INT), z3.Function("kept.before'", INT, INT)  # entries made of the records before k
LK, LKL = z3.Function("last.kept.before", INT, INT), z3.Function("last.kept.before'", INT, INT)  # last record before k that makes an entry (-1: none)
TOK = "cottontail::TokRecord"
ANN = "cottontail::Annotation"


def run_setup(cls, facts):
    def f(ex, fd, this):
        t = ("vec", ("cls", cls))
        rec = ex.new_cell(t, ex.fresh(t, "records"), "records")
        ex.records = rec
        s0 = z3.Int("first")
        ln = ex.read(rec, facts=False).d["len"]
        ex.assume(z3.And(s0 >= 0, s0 <= ln, ln <= BIG))
        start = ex.new_cell(("iter", t[1]), It(rec, s0, t[1]), "start")
        e = ex.new_cell(("iter", t[1]), It(rec, ln, t[1]), "end")
        for x in facts(ex, s0):
            ex.assume(x)
        return [PVar(start), e]
    return f


def rec(ex, f, st=None):
    d = ex.read(ex.records, st or ex.st, facts=False)
    return d.d["data"].d[f], d.d["len"]


def unroll(F, FL, s0, base, step):
    return [z3.ForAll([k], F(k) == FL(k), patterns=[F(k)]), z3.ForAll([k], F(k) == z3.If(k <= s0, base, step(k - 1, FL(k - 1))), patterns=[F(k)])]


def starts(A):
    return lambda st: A


def run_post(c, keep, src_p, src_q, src_v):
    """keep(k): does record k make an entry (number CNT(k))"""
    ex = c.ex
    s0 = z3.Int("first")
    ft, n = rec(ex, "feature")
    s1 = ex.read(ex.cx.args[0].loc, c.post, facts=False).idx
    if is_null(c.ret):
        return [("nothing left", s0 >= n), ("start kept", s1 == s0)]
    r = L(ex, c.post, c.ret)
    f0 = z3.Select(ft, s0)
    P, Q, V = src_p, src_q, src_v
    return [("records left", s0 < n), ("well formed", r.wf()), ("the first record's feature", r.feature == f0),
            ("one feature consumed", z3.ForAll([k], z3.Implies(z3.And(k >= s0, k < s1), z3.Select(ft, k) == f0), patterns=[z3.Select(ft, k)])),
            ("all of it", z3.And(s1 > s0, s1 <= n, z3.Or(s1 == n, z3.Select(ft, s1) != f0))),
            ("number of entries", r.n == CNT(s1)),
            ("entries", z3.ForAll([k], z3.Implies(z3.And(k >= s0, k < s1, keep(k)), z3.And(r.p(CNT(k)) == P(k), r.q(CNT(k)) == Q(k), veq(r.v(CNT(k)), V(k)))), patterns=[CNT(k)])),
            ("starts ascend", z3.ForAll([i], z3.Implies(z3.And(i > 0, i < r.n), r.p(i - 1) < r.p(i)), patterns=[r.p(i)]))]


def is_null(v):
    from cov.ex import NULL
    return v is NULL or (z3.is_expr(v) and z3.is_int_value(v) and v.as_long() == 0)


def loc_of(ex, st):
    """the posting under construction: the variable of that type in scope"""


def tokens():
    def A(ex):
        pq, n = rec(ex, "pq")
        return lambda a: z3.Select(pq, a)

    def keep(ex):
        s0 = z3.Int("first")
        pq = A(ex)
        return lambda a: z3.Or(a == s0, pq(a) > pq(a - 1))

    def facts(ex, s0):
        pq, kp = A(ex), keep(ex)
        ft, n = rec(ex, "feature")
        return unroll(CNT, CNTL, s0, z3.IntVal(0), lambda a, prev: prev + z3.If(kp(a), z3.IntVal(1), z3.IntVal(0))) + [
            z3.ForAll([k], z3.Implies(z3.And(k > s0, k < n, z3.Select(ft, k) == z3.Select(ft, k - 1)), pq(k) >= pq(k - 1)), patterns=[z3.Select(ft, k), pq(k)])]

    def post(c):
        pq = A(c.ex)
        return run_post(c, keep(c.ex), pq, pq, lambda a: z3.IntVal(0)) if is_null(c.ret) else [
            x for x in run_post(c, keep(c.ex), pq, pq, lambda a: z3.IntVal(0))] + [
            ("every token is there", z3.ForAll([k], z3.Implies(z3.And(k > z3.Int("first"), k <= c.ex.read(c.ex.cx.args[0].loc, c.post, facts=False).idx),
                                                               L(c.ex, c.post, c.ret).p(CNT(k) - 1) == pq(k - 1)), patterns=[CNT(k)]))]

    def inv(c, lc):
        ex = lc.ex
        s0 = z3.Int("first")
        pq, kp = A(ex), keep(ex)
        ft, n = rec(ex, "feature")
        out = []
        for x in posting_vars(lc):
            l = lambda st, x=x: L(ex, st, x(st))
            for nm, g in lc.ints():
                out += [("entries so far (%s)" % nm, lambda st, l=l, g=g: l(st).n == CNT(g(st))),
                        ("last entry (%s)" % nm, lambda st, l=l, g=g: z3.Implies(g(st) > s0, z3.And(l(st).n > 0, l(st).p(l(st).n - 1) == pq(g(st) - 1)))),
                        ("entries of records below %s" % nm, lambda st, l=l, g=g: forall([k], z3.Implies(z3.And(k > s0, k <= g(st)), z3.And(
                            CNT(k) <= l(st).n, CNT(k) > 0, l(st).p(CNT(k) - 1) == pq(k - 1))), [CNT(k)])),
                        ("counts below %s" % nm, lambda st, l=l, g=g: forall([k], z3.Implies(z3.And(k >= s0, k <= g(st)), z3.And(CNT(k) >= 0, CNT(k) <= k - s0)), [CNT(k)])),
                        ("one feature below %s" % nm, lambda st, g=g: forall([k], z3.Implies(z3.And(k >= s0, k < g(st)), z3.Select(ft, k) == z3.Select(ft, s0)), [z3.Select(ft, k)])),
                        ("%s in range" % nm, lambda st, g=g: z3.And(g(st) >= s0, g(st) <= n))]
            out += [("ascending", lambda st, l=l: forall([i], z3.Implies(z3.And(i > 0, i < l(st).n), l(st).p(i - 1) < l(st).p(i)), [l(st).p(i)])),
                    ("points only", lambda st, l=l: z3.And(l(st).lq == 0, l(st).lf == 0)),
                    ("feature", lambda st, l=l: l(st).feature == z3.Select(ft, s0))]
        return out
    return Contract(SPF + "::posting_from_tokens", ["start", "end"], post=post, inv=inv, setup=run_setup(TOK, facts), mods=lambda c: [c.ex.cx.args[0].loc])


class A_:
    """the run of annotations"""

    def __init__(self, ex):
        self.ft, self.len = rec(ex, "feature")
        self.P_, self.Q_, self.V_ = (rec(ex, f)[0] for f in "pqv")

    p = lambda s, a: z3.Select(s.P_, a)
    q = lambda s, a: z3.Select(s.Q_, a)
    v = lambda s, a: z3.Select(s.V_, a)
    valid = lambda s, a: s.p(a) <= s.q(a)
    keep = lambda s, a: z3.And(s.valid(a), z3.Or(LK(a) < 0, s.p(a) > s.p(LK(a))))


def ann_defs(a, s0):
    return unroll(CNT, CNTL, s0, z3.IntVal(0), lambda x, prev: prev + z3.If(z3.And(a.valid(x), z3.Or(LKL(x) < 0, a.p(x) > a.p(LKL(x)))), z3.IntVal(1), z3.IntVal(0))) + \
        unroll(LK, LKL, s0, z3.IntVal(-1), lambda x, prev: z3.If(z3.And(a.valid(x), z3.Or(prev < 0, a.p(x) > a.p(prev))), x, prev))


def ann_sorted(a, s0, n):
    x, y = z3.Ints("x!q y!q")
    return z3.ForAll([x, y], z3.Implies(z3.And(x >= s0, x < y, y < n, z3.Select(a.ft, x) == z3.Select(a.ft, y)),
                                        z3.And(a.q(x) <= a.q(y), z3.Implies(a.q(x) == a.q(y), a.p(x) >= a.p(y)))), patterns=[z3.MultiPattern(a.q(x), a.q(y))])


def annotations():
    def facts(ex, s0):
        a = A_(ex)
        return ann_defs(a, s0) + [ann_sorted(a, s0, a.len)]

    def post(c):
        a = A_(c.ex)
        out = run_post(c, a.keep, a.p, a.q, a.v)
        if is_null(c.ret):
            return out
        r = L(c.ex, c.post, c.ret)
        s0, s1 = z3.Int("first"), c.ex.read(c.ex.cx.args[0].loc, c.post, facts=False).idx
        return out + [("ends ascend", z3.ForAll([i], z3.Implies(z3.And(i > 0, i < r.n), r.q(i - 1) < r.q(i)), patterns=[r.p(i)])),
                      ("every interval holds an entry", z3.ForAll([k], z3.Implies(z3.And(k > s0, k <= s1, a.valid(k - 1)), z3.And(
                          CNT(k) > 0, CNT(k) <= r.n, r.p(CNT(k) - 1) >= a.p(k - 1), r.q(CNT(k) - 1) <= a.q(k - 1))), patterns=[CNT(k)]))]

    def inv(c, lc):
        ex = lc.ex
        s0 = z3.Int("first")
        a = A_(ex)
        ft, n = a.ft, a.len
        out = []
        for x in posting_vars(lc):
            l = lambda st, x=x: L(ex, st, x(st))
            qv = lambda st, y, l=l: z3.Select(l(st).Q, y)
            fv = lambda st, y, l=l: z3.Select(l(st).F, y)
            for nm, g in lc.ints():
                out += [("entries so far (%s)" % nm, lambda st, l=l, g=g: z3.And(l(st).n == CNT(g(st)), l(st).lq == l(st).n, l(st).lf == l(st).n, CNT(g(st)) <= g(st) - s0, CNT(g(st)) >= 0)),
                        ("no entry yet (%s)" % nm, lambda st, l=l, g=g: z3.And((LK(g(st)) < 0) == (CNT(g(st)) == 0), LK(g(st)) < g(st), z3.Or(LK(g(st)) >= s0, LK(g(st)) == -1))),
                        ("last entry (%s)" % nm, lambda st, l=l, g=g: z3.Implies(LK(g(st)) >= 0, z3.And(
                            l(st).p(l(st).n - 1) == a.p(LK(g(st))), qv(st, l(st).n - 1) == a.q(LK(g(st))), a.valid(LK(g(st)))))),
                        ("entries of records below %s" % nm, lambda st, l=l, g=g: forall([k], z3.Implies(z3.And(k >= s0, k < g(st), a.keep(k)), z3.And(
                            CNT(k) >= 0, CNT(k) < l(st).n, l(st).p(CNT(k)) == a.p(k), qv(st, CNT(k)) == a.q(k), fv(st, CNT(k)) == a.v(k))), [CNT(k)])),
                        ("cover below %s" % nm, lambda st, l=l, g=g: forall([k], z3.Implies(z3.And(k > s0, k <= g(st), a.valid(k - 1)), z3.And(
                            CNT(k) > 0, CNT(k) <= l(st).n, l(st).p(CNT(k) - 1) >= a.p(k - 1), qv(st, CNT(k) - 1) <= a.q(k - 1))), [CNT(k)])),
                        ("one feature below %s" % nm, lambda st, g=g: forall([k], z3.Implies(z3.And(k >= s0, k < g(st)), z3.Select(ft, k) == z3.Select(ft, s0)), [z3.Select(ft, k)])),
                        ("%s in range" % nm, lambda st, g=g: z3.And(g(st) >= s0, g(st) <= n))]
            for nm, b in lc.bools():
                out += [("points while %s" % nm, lambda st, l=l, b=b: z3.Implies(b(st), forall([i], z3.Implies(z3.And(i >= 0, i < l(st).n), qv(st, i) == l(st).p(i)), l(st).pats(i)))),
                        ("no values while %s" % nm, lambda st, l=l, b=b: z3.Implies(b(st), forall([i], z3.Implies(z3.And(i >= 0, i < l(st).n), z3.Or(fv(st, i) == 0, fv(st, i) == MIN)), l(st).pats(i))))]
            out += [("ascending", lambda st, l=l: forall([i], z3.Implies(z3.And(i > 0, i < l(st).n), l(st).p(i - 1) < l(st).p(i)), [l(st).p(i)])),
                    ("ends ascending", lambda st, l=l: forall([i], z3.Implies(z3.And(i > 0, i < l(st).n), qv(st, i - 1) < qv(st, i)), [l(st).p(i), qv(st, i)])),
                    ("feature", lambda st, l=l: l(st).feature == z3.Select(ft, s0))]
        return out
    return Contract(SPF + "::posting_from_annotations", ["start", "end"], post=post, inv=inv, setup=run_setup(ANN, facts), mods=lambda c: [c.ex.cx.args[0].loc])


def ann_lemmas():
    """keeping a record when it starts after the last one kept keeps exactly the minimal intervals, once each"""
    ft, P_, Q_ = [z3.Const("run." + x, z3.ArraySort(INT, INT)) for x in ("f", "p", "q")]
    s0, n, m, x = z3.Ints("first n m x")

    class R(A_):
        def __init__(self):
            self.ft, self.P_, self.Q_, self.len = ft, P_, Q_, n
    a = R()
    one = z3.ForAll([k], z3.Implies(z3.And(k >= s0, k < n), z3.Select(ft, k) == z3.Select(ft, s0)), patterns=[z3.Select(ft, k)])
    D = ann_defs(a, s0) + [ann_sorted(a, s0, n), one, s0 >= 0, s0 < n]
    top = lambda y: z3.And(z3.Or(LK(y) == -1, z3.And(LK(y) >= s0, LK(y) < y, a.valid(LK(y)))),
                           z3.ForAll([k], z3.Implies(z3.And(k >= s0, k < y, a.valid(k)), z3.And(LK(y) >= s0, a.p(LK(y)) >= a.p(k))), patterns=[a.p(k)]))
    inside = lambda y, z: z3.And(a.valid(y), a.p(z) <= a.p(y), a.q(y) <= a.q(z), z3.Or(a.p(z) != a.p(y), a.q(z) != a.q(y), y < z))
    return [("last kept record starts last (base)", D, top(s0)),
            ("last kept record starts last (step)", D + [m >= s0, m < n, top(m)], top(m + 1)),
            ("kept records are minimal", D + [x >= s0, x < n, top(x), a.keep(x), m >= s0, m < n, z3.Select(ft, x) == z3.Select(ft, s0), z3.Select(ft, m) == z3.Select(ft, s0)], z3.Not(inside(m, x))),
            ("a dropped record holds another", D + [x >= s0, x < n, top(x), a.valid(x), z3.Not(a.keep(x)), z3.Select(ft, x) == z3.Select(ft, s0), z3.Select(ft, LK(x)) == z3.Select(ft, s0)],
             inside(LK(x), x))]


def gc_list(l):
    return z3.And(forall([i], z3.Implies(z3.And(i > 0, i < l.n), z3.And(l.p(i - 1) < l.p(i), l.q(i - 1) < l.q(i))), [l.p(i)]),
                  forall([i], z3.Implies(z3.And(i >= 0, i < l.n), l.p(i) <= l.q(i)), [l.p(i)]))


def invariants():
    def pre(c):
        t = this(c, c.pre)
        return [("sizes", z3.And(t.n <= BIG, t.lq <= BIG, t.lf <= BIG))]

    def post(c):
        t = this(c, c.pre)
        r = c.ex.as_bool(c.ret)
        up = lambda f: forall([i], z3.Implies(z3.And(i > 0, i < t.n), f(i - 1) <= f(i)), [f(i)])
        return [("accepted: sizes agree", z3.Implies(r, z3.And(z3.Or(t.lq == 0, t.lq == t.n), z3.Or(t.lf == 0, t.lf == t.n)))),
                ("accepted: starts in order", z3.Implies(r, up(lambda a: z3.Select(t.P, a)))),
                ("accepted: ends in order", z3.Implies(z3.And(r, t.lq > 0), up(lambda a: z3.Select(t.Q, a)))),
                ("accepted: intervals", z3.Implies(z3.And(r, t.lq > 0), forall([i], z3.Implies(z3.And(i >= 0, i < t.n), z3.Select(t.P, i) <= z3.Select(t.Q, i)), [z3.Select(t.P, i)]))),
                ("every proper list is accepted", z3.Implies(z3.And(t.wf(), gc_list(t)), r))]

    def inv(c, lc):
        t = this(c, c.pre)
        return [("intervals below %s" % nm, lambda st, g=g: forall([i], z3.Implies(z3.And(i >= 0, i < g(st)), z3.Select(t.P, i) <= z3.Select(t.Q, i)), [z3.Select(t.P, i)])) for nm, g in lc.ints()] + \
            [("%s<=n" % nm, lambda st, g=g: g(st) <= t.n) for nm, g in lc.ints()]
    return Contract(SP + "::invariants", ["error"], pre=pre, post=post, inv=inv, mods=lambda c: [], ret=("bool",))


def feature():
    def post(c):
        r = L(c.ex, c.post, c.ret)
        return [("feature", r.feature == c["feature"]), ("empty", z3.And(r.n == 0, r.lq == 0, r.lf == 0)), ("a new list", c.ret >= c.pre.alloc)]
    return Contract(SPF + "::posting_from_feature", ["feature", "open"], post=post, mods=lambda c: [])


def posting_vars(lc):
    """variables of the loop that point to a posting"""
    out = []
    for nm, l in lc.cells():
        if l.t and l.t[0] == "ptr" and l.t[1] == ("cls", SP):
            out.append(lambda st, l=l: lc.ex.read(l, st, facts=False))
    return out


# ------------------------------------------------------------- merging
def fall(vs, body, patterns):
    return forall(vs if isinstance(vs, list) else [vs], body, patterns)


NP = z3.Function("given.n", INT, INT)
PP, QQ, VV = [z3.Function("given." + x, INT, INT, INT) for x in "pqv"]
HJ, HI = z3.Function("holder", INT, INT, INT), z3.Function("holder.entry", INT, INT, INT)   # last list holding an interval, and where
M_ENT = z3.Function("mark.entry", INT, z3.BoolSort())   # always true; they name the terms the solver may use
M_E = z3.Function("mark.given", INT, INT, z3.BoolSort())
M_RES = z3.Function("mark.result", INT, z3.BoolSort())
jj, ii, ss, tt, rr, xx = z3.Ints("jj!q ii!q ss!q tt!q rr!q xx!q")
Jv, Iv = z3.Ints("J!q I!q")


class Given:
    """the lists to merge, as they were at the call"""

    def __init__(self, c):
        v = c.at(c.pre, "postings")
        self.m, self.D = v.d["len"], v.d["data"]
        self.c = c

    def H(self, a):
        return z3.Select(self.D, a)

    def inr(self, a, e):
        return z3.And(a >= 0, a < self.m, e >= 0, e < NP(self.H(a)))

    def p(self, a, e):
        return PP(self.H(a), e)

    def q(self, a, e):
        return QQ(self.H(a), e)

    def v(self, a, e):
        return VV(self.H(a), e)

    def held(self, x, y):
        """the interval is in some list; (HJ, HI) is its last holder"""
        j_, i_ = HJ(x, y), HI(x, y)
        return z3.And(self.inr(j_, i_), self.p(j_, i_) == x, self.q(j_, i_) == y)

    def value(self, x, y):
        return self.v(HJ(x, y), HI(x, y))

    def each(self, f, extra=()):
        """for every entry"""
        return fall([jj, ii], z3.Implies(z3.And(M_E(jj, ii), self.inr(jj, ii)), f(jj, ii)), patterns=[M_E(jj, ii), self.p(jj, ii), self.q(jj, ii)])


def strict_in(p, q, p2, q2):
    return z3.And(p2 <= p, q <= q2, z3.Or(p2 != p, q2 != q))


def merge_model(c):
    g = Given(c)
    l = L(c.ex, c.pre, xx)
    out = [("lists", z3.And(g.m >= 0, g.m <= BIG)),
           ("lists are set", fall([jj], z3.Implies(z3.And(jj >= 0, jj < g.m), z3.And(g.H(jj) > 0, g.H(jj) < c.pre.alloc, NP(g.H(jj)) >= 0, NP(g.H(jj)) <= BIG)), patterns=[g.H(jj)])),
           ("contents: length", fall([xx], NP(xx) == l.n, patterns=[NP(xx), l.n])),
           ("contents: starts", fall([xx, ii], PP(xx, ii) == l.p(ii), patterns=[PP(xx, ii), l.p(ii)])),
           ("contents: ends", fall([xx, ii], QQ(xx, ii) == l.q(ii), patterns=[QQ(xx, ii), z3.Select(l.Q, ii)])),
           ("contents: values", fall([xx, ii], VV(xx, ii) == l.v(ii), patterns=[VV(xx, ii), z3.Select(l.F, ii)])),
           ("well formed", fall([jj], z3.Implies(z3.And(jj >= 0, jj < g.m), z3.And(L(c.ex, c.pre, g.H(jj)).wf(), L(c.ex, c.pre, g.H(jj)).feature == L(c.ex, c.pre, g.H(z3.IntVal(0))).feature)), patterns=[g.H(jj)])),
           ("intervals", g.each(lambda a, e: z3.And(g.p(a, e) <= g.q(a, e), g.p(a, e) > MIN, g.q(a, e) < MAX))),
           ("starts and ends ascend", fall([jj, ii, Iv], z3.Implies(z3.And(g.inr(jj, ii), g.inr(jj, Iv), ii < Iv), z3.And(g.p(jj, ii) < g.p(jj, Iv), g.q(jj, ii) < g.q(jj, Iv))),
                                                patterns=[(g.p(jj, ii), g.p(jj, Iv)), (g.q(jj, ii), g.q(jj, Iv))])),
           ("last holder", fall([jj, ii], z3.Implies(g.inr(jj, ii), z3.And(g.held(g.p(jj, ii), g.q(jj, ii)), HJ(g.p(jj, ii), g.q(jj, ii)) >= jj)), patterns=[HJ(g.p(jj, ii), g.q(jj, ii))])),
           ("marks", z3.And(fall([i], M_RES(i), patterns=[M_RES(i)]), fall([jj, ii], M_E(jj, ii), patterns=[M_E(jj, ii)]), fall([i], M_ENT(i), patterns=[M_ENT(i)]), fall([i], stl.M_SLOT(i), patterns=[stl.M_SLOT(i)])))]
    return out


def res_entry(r):
    return lambda f: fall([rr], z3.Implies(z3.And(M_RES(rr), rr >= 0, rr < r.n), f(rr)), patterns=[M_RES(rr)])


def merged(g, r, covered=True):
    """what is known of a (partial) result list r"""
    E = res_entry(r)
    out = [("well formed", r.wf()),
           ("only given intervals", E(lambda x: g.held(r.p(x), r.q(x)))),
           ("value of the last list holding it", E(lambda x: veq(r.v(x), g.value(r.p(x), r.q(x))))),
           ("starts and ends ascend", forall([rr], z3.Implies(z3.And(M_RES(rr), rr > 0, rr < r.n), z3.And(r.p(rr - 1) < r.p(rr), r.q(rr - 1) < r.q(rr))), [M_RES(rr)])),
           ("nothing given lies strictly inside", forall([rr, jj, ii], z3.Implies(z3.And(M_RES(rr), rr >= 0, rr < r.n, g.inr(jj, ii)), z3.Not(strict_in(g.p(jj, ii), g.q(jj, ii), r.p(rr), r.q(rr)))),
                                                         [(M_RES(rr), g.p(jj, ii))]))]
    return out


def holds_result(g, r, a, e):
    return z3.Implies(M_ENT(r.n - 1), z3.Exists([rr], z3.And(M_ENT(rr), rr >= 0, rr < r.n, r.p(rr) >= g.p(a, e), r.q(rr) <= g.q(a, e)), patterns=[M_ENT(rr)]))


def queue_inv(g, qv, r, k_, lastq):
    l, D = qv.d["len"], qv.d["data"]
    el = lambda f, s: z3.Select(D.d[f], s)
    inq = lambda s: z3.And(s >= 0, s < l)
    X = lambda s: el("index_", s)
    C = lambda s: el("current_", s)
    Hs = lambda s: g.H(X(s))
    pt = [X(ss)]
    return [
        ("queued lists", fall([ss], z3.Implies(inq(ss), z3.And(X(ss) >= 0, X(ss) < g.m, el("posting_", ss) == Hs(ss), el("size_", ss) == NP(Hs(ss)), C(ss) >= 0, C(ss) < NP(Hs(ss)))), patterns=pt)),
        ("each list queued once", fall([ss, tt], z3.Implies(z3.And(inq(ss), inq(tt), ss != tt), X(ss) != X(tt)), patterns=[(X(ss), X(tt))])),
        ("queued entries", fall([ss], z3.Implies(inq(ss), z3.And(el("p_", ss) == PP(Hs(ss), C(ss)), el("q_", ss) == QQ(Hs(ss), C(ss)), el("v_", ss) == VV(Hs(ss), C(ss)))),
                                     patterns=[X(ss), el("p_", ss), el("q_", ss)])),
    ]


def done_or_queued(g, qv, done):
    l, D = qv.d["len"], qv.d["data"]
    return fall([jj, ii], z3.Implies(z3.And(M_E(jj, ii), g.inr(jj, ii)), z3.Or(done(jj, ii), z3.Exists([ss], z3.And(
        stl.M_SLOT(ss), ss >= 0, ss < l, z3.Select(D.d["index_"], ss) == jj, z3.Select(D.d["current_"], ss) <= ii), patterns=[stl.M_SLOT(ss)]))),
        patterns=[M_E(jj, ii), g.p(jj, ii), g.q(jj, ii)])


def queued_after(g, qv, r):
    """queued entries come after the last result"""
    l, D = qv.d["len"], qv.d["data"]
    el = lambda f, s: z3.Select(D.d[f], s)
    lp, lq = r.p(r.n - 1), r.q(r.n - 1)
    return fall([ss], z3.Implies(z3.And(ss >= 0, ss < l, r.n > 0), z3.Or(el("q_", ss) > lq, z3.And(el("q_", ss) == lq, el("p_", ss) <= lp))), patterns=[el("index_", ss), el("q_", ss), el("p_", ss)])


def apart(g, m):
    """every entry of an earlier list starts and ends before every entry of a later one"""
    return fall([jj, ii, Jv, Iv], z3.Implies(z3.And(g.inr(jj, ii), g.inr(Jv, Iv), jj < Jv, Jv < m), z3.And(g.p(jj, ii) < g.p(Jv, Iv), g.q(jj, ii) < g.q(Jv, Iv))),
                     patterns=[(g.p(jj, ii), g.p(Jv, Iv))])


def merge_templates(c, lc):
    ex = lc.ex
    g = Given(c)
    out = []
    qs = [(nm, lambda st, l=l: ex.read(l, st, facts=False)) for nm, l in lc.cells() if l.t and l.t[0] == "pq"]
    res = [lambda st, x=x: L(ex, st, x(st)) for x in posting_vars(lc)]
    ints = lc.ints()
    for x in res:
        for t_ in range(5):
            out.append(("result fact %d" % t_, lambda st, x=x, t_=t_: merged(g, x(st))[t_][1]))
        out.append(("result length", lambda st, x=x: x(st).n <= BIG))
    for qn, qv in qs:
        for t_ in range(3):
            out.append(("queue fact %d" % t_, lambda st, qv=qv, t_=t_: queue_inv(g, qv(st), None, None, None)[t_][1]))
        for nm, gi in ints:
            out.append(("lists below %s queued" % nm, lambda st, qv=qv, gi=gi: done_or_queued(g, qv(st), lambda a, e: a >= gi(st))))
            out.append(("only lists below %s queued" % nm, lambda st, qv=qv, gi=gi: fall([ss], z3.Implies(z3.And(ss >= 0, ss < qv(st).d["len"]), z3.Select(qv(st).d["data"].d["index_"], ss) < gi(st)),
                                                                                            patterns=[z3.Select(qv(st).d["data"].d["index_"], ss)])))
            for x in res:
                out.append(("entries done start up to %s or are queued" % nm, lambda st, qv=qv, gi=gi, x=x: done_or_queued(g, qv(st), lambda a, e: z3.And(g.p(a, e) <= gi(st), holds_result(g, x(st), a, e)))))
                out.append(("%s is the last start" % nm, lambda st, gi=gi, x=x: gi(st) == z3.If(x(st).n > 0, x(st).p(x(st).n - 1), z3.IntVal(MIN))))
        for x in res:
            out.append(("queued entries come later", lambda st, qv=qv, x=x: queued_after(g, qv(st), x(st))))
    idx = [(nm, gi) for nm, gi in ints if lc._names[nm].t[0] == "iter" or lc._names[nm].t == SZ or nm.startswith("__")]
    for bn, b in lc.bools():
        if not lc.modified(bn):
            continue  # nothing changes: what was known still is
        for nm, gi in idx:
            out.append(("lists below %s do not overlap if %s" % (nm, bn), lambda st, b=b, gi=gi: z3.Implies(b(st), apart(g, gi(st)))))
            for nm2, g2 in idx:
                if nm2 != nm:
                    out.append(("entries of lists below %s end with list %s's last if %s" % (nm, nm2, bn), lambda st, b=b, gi=gi, g2=g2: z3.Implies(b(st), g.each(lambda a, e: z3.Implies(a < gi(st), z3.And(
                        g2(st) < gi(st), NP(g.H(g2(st))) > 0, g.p(a, e) <= g.p(g2(st), NP(g.H(g2(st))) - 1), g.q(a, e) <= g.q(g2(st), NP(g.H(g2(st))) - 1)))))))
    if not qs:
        for x in res:
            later = lambda st, cond, x=x: g.each(lambda a, e: z3.Implies(z3.And(cond(a, e), x(st).n > 0), z3.And(x(st).p(x(st).n - 1) < g.p(a, e), x(st).q(x(st).n - 1) < g.q(a, e))))
            done = lambda st, cond, x=x: g.each(lambda a, e: z3.Implies(cond(a, e), holds_result(g, x(st), a, e)))
            for nm, gi in idx:
                out.append(("entries from list %s on come later" % nm, lambda st, gi=gi, f=later: f(st, lambda a, e: a >= gi(st))))
                out.append(("lists below %s are in" % nm, lambda st, gi=gi, f=done: f(st, lambda a, e: a < gi(st))))
                for nm2, g2 in idx:
                    if nm2 != nm and lc.modified(nm2):
                        out.append(("entries from (%s, %s) on come later" % (nm, nm2), lambda st, gi=gi, g2=g2, f=later: f(st, lambda a, e: z3.Or(a > gi(st), z3.And(a == gi(st), e >= g2(st))))))
                        out.append(("entries below (%s, %s) are in" % (nm, nm2), lambda st, gi=gi, g2=g2, f=done: f(st, lambda a, e: z3.Or(a < gi(st), z3.And(a == gi(st), e < g2(st))))))
    for nm, gi in ints:
        out.append(("%s<=m" % nm, lambda st, gi=gi: gi(st) <= g.m))
    return out


def merge():
    def post(c):
        g = Given(c)
        if is_null(c.ret):
            return [("no lists", g.m == 0)]
        r = L(c.ex, c.post, c.ret)
        return [("feature", r.feature == L(c.ex, c.pre, g.H(z3.IntVal(0))).feature)] + merged(g, r) + [
            ("every given interval holds an answer", g.each(lambda a, e: holds_result(g, r, a, e)))]

    def meas(c, lc):
        out = []
        for nm, l in lc.cells():
            if l.t and l.t[0] == "pq":
                def f(st, l=l):
                    v = c.ex.read(l, st, facts=False)
                    return stl.SUM(v.d["data"].d["size_"], v.d["data"].d["current_"], v.d["len"])
                out.append(("entries left in the queue", f))
        return out
    con = Contract(SPF + "::posting_from_merge", ["postings"], pre=merge_model, meas=meas, post=post, inv=merge_templates, mods=lambda c: [], sig=sig_n(1), opts={"merge": False, "sum": ("size_", "current_")})
    return con
