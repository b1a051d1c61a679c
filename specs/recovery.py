"""Contracts of what is done with the files found when a database is opened."""
import z3
from cov.ex import Contract, Loc, PVar, default_args
from cov.cast import params_of
from cov.types_ import INT
from cov.smt import forall
from cov import stl
from .hoppers import sig_n

BOOL = ("bool",)
SH = ("vec", ("cls", "cottontail::OwslaShard"))
i, j, k, m = z3.Ints("i!q j!q k!q m!q")


MK = {x: stl._mark("shard." + x) for x in ["F", "L", "D", "A"] + ["each%d" % n for n in range(8)]}


def marks():
    return [("marks", z3.And([z3.ForAll([j], f(j), patterns=[f(j)]) for f in MK.values()]))]


def some(n, kind, P):
    """one of the first n"""
    f = MK[kind]
    return z3.Or(z3.And(f(n - 1), n > 0, P(n - 1)), z3.Exists([j], z3.And(f(j), j >= 0, j < n, P(j)), patterns=[f(j)]))


def each(tag, n, P):
    """all of the first n; its own mark keeps the quantifiers from feeding each other"""
    f = MK["each%d" % tag]
    return z3.ForAll([i], z3.Implies(z3.And(f(i), i >= 0, i < n), P(i)), patterns=[f(i)])


FILE = z3.Function("file", INT, z3.ArraySort(INT, INT), INT)  # the file a name names


class V:
    """a list of shards"""

    def __init__(self, r):
        self.r, self.n = r, r.d["len"]
        d = r.d["data"].d
        self.S, self.E, self.name = d["start"], d["end"], d["name"]
        self.s, self.e = (lambda x: z3.Select(self.S, x)), (lambda x: z3.Select(self.E, x))
        self.ln, self.ld = (lambda x: z3.Select(self.name.d["len"], x)), (lambda x: z3.Select(self.name.d["data"], x))

    def valid(self):
        return forall([i], z3.Implies(self.inr(i), z3.And(self.s(i) >= 0, self.s(i) <= self.e(i))), [self.s(i), self.e(i)])

    def inr(self, x):
        return z3.And(x >= 0, x < self.n)

    def apart(self, n=None):
        n = self.n if n is None else n
        return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), self.e(i) < self.s(j)), patterns=[z3.MultiPattern(self.e(i), self.s(j))])

    def same(self, a, o, b):
        """my entry a is o's entry b"""
        return z3.And(self.s(a) == o.s(b), self.e(a) == o.e(b), FILE(self.ln(a), self.ld(a)) == FILE(o.ln(b), o.ld(b)))

    def covers(self, a, o, b):
        return z3.And(self.s(a) <= o.s(b), self.e(a) >= o.e(b))


def at(c, st, nm):
    return V(c.at(st, nm))


def shards(lc, ex):
    """lists of shards in reach of a loop"""
    return [(nm, lambda st, l=l: V(ex.read(l, st, facts=False))) for nm, l in lc.cells() if l.t == SH]


SIZE = z3.IntVal(1 << 30)


def room(*vs):
    return [("lists as long as fit", z3.And([z3.And(v.n >= 0, v.n <= SIZE) for v in vs]))]


# ---------------------------------------------------------------- which files are current
def normalize(q, kind):
    args = (["kind"] if kind else []) + ["found", "living", "dead", "error"]

    def pre(c):
        F = at(c, c.pre, "found")
        return marks() + room(F) + [("shards cover sequences", F.valid())]

    def kept(F, L, D, n):
        """each of F's first n is in L or in D, and inside one of L"""
        return [("each is current or superseded", each(0, n, lambda i: z3.Or(some(L.n, "L", lambda x: L.same(x, F, i)), some(D.n, "D", lambda x: D.same(x, F, i))))),
                ("each lies inside a current one", each(1, n, lambda i: some(L.n, "L", lambda x: L.covers(x, F, i)))),
                ("superseded ones lie inside a current one", each(2, D.n, lambda i: some(L.n, "L", lambda x: L.covers(x, D, i)))),
                ("current ones were found", each(3, L.n, lambda i: some(n, "F", lambda x: L.same(i, F, x)))),
                ("superseded ones were found", each(4, D.n, lambda i: some(n, "F", lambda x: D.same(i, F, x)))),
                ("current ones do not overlap", L.apart())]

    def post(c):
        F0, F, L, D = at(c, c.pre, "found"), at(c, c.post, "found"), at(c, c.post, "living"), at(c, c.post, "dead")
        r = c.ex.as_bool(c.ret)
        return [("nothing found is lost", z3.ForAll([i], z3.Implies(F0.inr(i), z3.Exists([j], z3.And(F.inr(j), F.same(j, F0, i)), patterns=[F.s(j)])), patterns=[F0.s(i)])),
                ("nothing else is found", z3.And(F.n == F0.n, z3.ForAll([i], z3.Implies(F.inr(i), z3.Exists([j], z3.And(F0.inr(j), F.same(i, F0, j)), patterns=[F0.s(j)])), patterns=[F.s(i)])))] + [(nm, z3.Implies(r, f)) for nm, f in kept(F, L, D, F.n)]

    def inv(c, lc):
        ex = lc.ex
        out = []
        F = lambda st: at(c, st, "found")
        L, D = (lambda st: at(c, st, "living")), (lambda st: at(c, st, "dead"))
        for nm, g in lc.ints():
            if not lc.modified(nm):
                continue
            out.append(("%s in range" % nm, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= F(st).n)))
            for x in range(6):
                out.append(("%d up to %s" % (x, nm), lambda st, g=g, x=x: kept(F(st), L(st), D(st), g(st))[x][1]))
            out.append(("sizes %s" % nm, lambda st, g=g: z3.And(L(st).n >= 0, D(st).n >= 0, L(st).n + D(st).n == g(st))))
            out.append(("the last current one is the first seen unless nothing is seen: %s" % nm, lambda st, g=g: z3.Implies(g(st) > 0, z3.And(L(st).n > 0, L(st).s(L(st).n - 1) <= F(st).s(g(st) - 1)))))
        return out
    return Contract(q, args, pre=pre, post=post, inv=inv, ret=BOOL, mods=lambda c: [c.loc(n) for n in ("found", "living", "dead", "error")])


def owsla_fns():
    C = "cottontail::"
    F = C

    def shadow_post(c):
        d, L = c.at(c.pre, "dead"), at(c, c.pre, "living")
        r = c.ex.as_bool(c.ret)
        cov = lambda x: z3.And(L.s(x) <= d.d["start"], d.d["end"] <= L.e(x))
        return [("found if there is one", z3.Implies(z3.Not(r), z3.ForAll([i], z3.Implies(L.inr(i), z3.Not(cov(i))), patterns=[L.s(i)]))), ("and only then", z3.Implies(r, some(L.n, "L", cov)))]

    def shadow_inv(c, lc):
        L = at(c, c.pre, "living")
        d = c.at(c.pre, "dead")
        out = []
        for nm, g in lc.ints():
            if lc.modified(nm):
                out += [("%s in range" % nm, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= L.n)),
                        ("none before %s" % nm, lambda st, g=g: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g(st)), z3.Not(z3.And(L.s(i) <= d.d["start"], d.d["end"] <= L.e(i)))), patterns=[L.s(i)]))]
        return out
    sh = [Contract(F + n, ["dead", "living"], pre=lambda c: marks() + room(at(c, c.pre, "living")), post=shadow_post, inv=shadow_inv, ret=BOOL) for n in ("shadowed_by_living", "shadowed_by_living_hazel")]

    def verify_con(n, args):
        def post(c):
            L, D = at(c, c.pre, "living"), at(c, c.pre, "dead")
            r = c.ex.as_bool(c.ret)
            ok = lambda x: some(L.n, "L", lambda y: L.covers(y, D, x))
            return [("accepted only if all lie inside current ones", z3.Implies(r, each(7, D.n, ok))),
                    ("refused only if one does not", z3.Implies(z3.Not(r), z3.Exists([i], z3.And(D.inr(i), z3.Not(ok(i))), patterns=[D.s(i)])))]

        def inv(c, lc):
            L, D = at(c, c.pre, "living"), at(c, c.pre, "dead")
            ok = lambda x: some(L.n, "L", lambda y: L.covers(y, D, x))
            out = []
            for nm, g in lc.ints():
                if lc.modified(nm):
                    out += [("%s in range" % nm, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= D.n)),
                            ("all before %s" % nm, lambda st, g=g: each(7, g(st), ok))]
            return out
        return Contract(F + n, args, pre=lambda c: marks() + room(at(c, c.pre, "living"), at(c, c.pre, "dead")), post=post, inv=inv, ret=BOOL, mods=lambda c: [c.loc("error")])
    ver = [verify_con("verify_dead_shards", ["kind", "living", "dead", "error"]), verify_con("verify_dead_hazels", ["living", "dead", "error"])]
    norm = [normalize(F + "normalize_shards", True), normalize(F + "normalize_hazel_shards", False)]
    g = lambda c, n, f: c.at(c.pre, n).d[f]
    rng = [Contract(C + "owsla_ranges_overlap", ["a", "b"], ret=BOOL, post=lambda c: [("they share a sequence number", c.ex.as_bool(c.ret) == z3.And(g(c, "a", "start") <= g(c, "b", "end"), g(c, "b", "start") <= g(c, "a", "end")))]),
           Contract(C + "owsla_range_contains", ["outer", "inner"], ret=BOOL, post=lambda c: [("one lies inside the other", c.ex.as_bool(c.ret) == z3.And(g(c, "outer", "start") <= g(c, "inner", "start"), g(c, "inner", "end") <= g(c, "outer", "end")))])]
    return {"norm": norm, "shadow": sh, "verify": ver, "range": rng}


def order_and_combine():
    C = "cottontail::"

    def bad(L, x):
        return z3.Or(L.s(x) < 0, L.e(x) < L.s(x), z3.And(x > 0, L.e(x - 1) >= L.s(x)))

    def ord_post(c):
        L, r = at(c, c.pre, "shards"), c.ex.as_bool(c.ret)
        return [("accepted only if valid and in order", z3.Implies(r, z3.ForAll([i], z3.Implies(L.inr(i), z3.Not(bad(L, i))), patterns=[L.s(i)]))),
                ("refused only if not", z3.Implies(z3.Not(r), z3.Exists([i], z3.And(L.inr(i), bad(L, i)), patterns=[L.s(i)])))]

    def ord_inv(c, lc):
        L = at(c, c.pre, "shards")
        out = []
        for nm, g in lc.ints():
            if lc.modified(nm):
                out += [("%s in range" % nm, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= L.n)),
                        ("in order before %s" % nm, lambda st, g=g: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g(st)), z3.Not(bad(L, i))), patterns=[L.s(i)]))]
        return out
    order = Contract(C + "verify_shard_order", ["kind", "shards", "error"], pre=lambda c: room(at(c, c.pre, "shards")), post=ord_post, inv=ord_inv, ret=BOOL, mods=lambda c: [c.loc("error")])

    # callers get the order between any two (by induction over the distance, as a lemma below)
    def ord_post2(c):
        L, r = at(c, c.pre, "shards"), c.ex.as_bool(c.ret)
        return [("", z3.Implies(r, z3.And(L.valid(), L.apart())))]
    order2 = Contract(C + "verify_shard_order", ["kind", "shards", "error"], post=ord_post2, ret=BOOL, mods=lambda c: [c.loc("error")])

    # ------------------------------------------------------------ both kinds together
    inv_ = lambda c, st: c.at(st, "inventory")
    part = lambda c, st, f: V(inv_(c, st).d[f])

    def inside(H, F, x):
        return some(H.n, "L", lambda y: H.covers(y, F, x))

    def apart2(H, K):
        return z3.ForAll([i, j], z3.Implies(z3.And(H.inr(i), K.inr(j)), z3.Or(H.e(i) < K.s(j), K.e(j) < H.s(i))), patterns=[z3.MultiPattern(H.s(i), K.s(j))])

    def pre(c):
        return marks() + room(part(c, c.pre, "fivers"), part(c, c.pre, "hazels"))

    def kept(F, H, K, n):
        return [("each plain shard stays or lies inside a compressed one", each(0, n, lambda i: z3.Or(some(K.n, "D", lambda x: K.same(x, F, i)), inside(H, F, i)))),
                ("those that stay were there", each(1, K.n, lambda i: some(n, "F", lambda x: K.same(i, F, x)))),
                ("those that stay do not overlap", K.apart()), ("those that stay overlap no compressed one", apart2(H, K))]

    def post(c):
        r = c.ex.as_bool(c.ret)
        F, H, H1, K, A = part(c, c.pre, "fivers"), part(c, c.pre, "hazels"), part(c, c.post, "hazels"), part(c, c.post, "fivers"), part(c, c.post, "shards")
        out = kept(F, H, K, F.n)
        out += [("compressed ones are kept", z3.And(H1.n == H.n, z3.ForAll([i], z3.Implies(H.inr(i), H1.same(i, H, i)), patterns=[H1.s(i)]))),
                ("together they are all compressed ones", each(3, H.n, lambda i: some(A.n, "A", lambda x: A.same(x, H, i)))),
                ("and all plain ones that stay", each(4, K.n, lambda i: some(A.n, "A", lambda x: A.same(x, K, i)))),
                ("and nothing else", each(5, A.n, lambda i: z3.Or(some(H.n, "L", lambda x: A.same(i, H, x)), some(K.n, "D", lambda x: A.same(i, K, x))))),
                ("in order", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < A.n), A.s(i) <= A.s(j)), patterns=[z3.MultiPattern(A.s(i), A.s(j))]))]
        return [(nm, z3.Implies(r, f)) for nm, f in out]

    def inv(c, lc):
        ex = lc.ex
        F, H = (lambda st: part(c, st, "fivers")), (lambda st: part(c, st, "hazels"))
        out = []
        mod = [(nm, g) for nm, g in lc.ints() if lc.modified(nm)]
        for nm, g in lc.ints():
            for tag, L in (("plain", F), ("compressed", H)):
                if lc.modified(nm):
                    out.append(("%s in range of %s" % (nm, tag), lambda st, g=g, L=L: z3.And(g(st) >= 0, g(st) <= L(st).n)))
            for n2, K in shards(lc, ex):
                if lc.modified(nm):
                    for x in range(2):
                        out.append(("%d %s up to %s" % (x, n2, nm), lambda st, g=g, K=K, x=x: kept(F(st), H(st), K(st), g(st))[x][1]))
                    out.append(("all of %s before %s" % (n2, nm), lambda st, g=g, K=K: z3.ForAll([i], z3.Implies(z3.And(K(st).inr(i), g(st) < F(st).n), K(st).e(i) < F(st).s(g(st))), patterns=[K(st).e(i)])))
                    out.append(("at most %s in %s" % (nm, n2), lambda st, g=g, K=K: z3.And(K(st).n >= 0, K(st).n <= g(st))))
            for n2, g2 in lc.ints():
                if n2 != nm:
                    out.append(("compressed ones before %s are before plain %s" % (nm, n2), lambda st, g=g, g2=g2: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g(st), i < H(st).n, g2(st) >= 0, g2(st) < F(st).n), H(st).e(i) < F(st).s(g2(st))), patterns=[H(st).s(i)])))
        for n2, K in shards(lc, ex):
            out += [("apart %s" % n2, lambda st, K=K: K(st).apart()), ("apart from compressed %s" % n2, lambda st, K=K: apart2(H(st), K(st)))]
        return out
    def mods(c):
        return [c.loc("inventory"), c.loc("error")]
    ctx = []

    def setup(ex, f, this):
        a = default_args(ex, f)
        t = ex.ty(params_of(f)[1])[1]
        a[1] = PVar(ex.new_cell(t, ex.fresh(t, "inventory"), "inventory"))
        return a

    def pre_(c):
        ctx[:] = [c]
        return pre(c)
    comb = Contract(C + "combine_shards", ["working", "inventory", "error"], pre=pre_, setup=setup, post=post, inv=inv, ret=BOOL, mods=mods)

    def rm_pre(c):
        """only files of shards that lie inside a compressed one"""
        o = ctx[0]
        F, H = part(o, o.pre, "fivers"), part(o, o.pre, "hazels")
        nm = c.at(c.pre, "name")
        return [("the file removed is one whose contents are elsewhere", z3.Exists([i], z3.And(F.inr(i), FILE(F.ln(i), F.ld(i)) == FILE(nm.d["len"], nm.d["data"]), inside(H, F, i)), patterns=[F.s(i)]))]
    rm = Contract(C + "Working::remove", ["name", "error"], pre=rm_pre, ret=BOOL, mods=lambda c: [c.loc("error")])
    return order, order2, comb, rm
