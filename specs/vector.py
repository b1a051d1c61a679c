"""Contracts of the merged stream (one stream over several): minimal intervals of
the union, the value of the last operand that has the interval."""
import z3
from cov.ex import Contract, PVar
from cov.types_ import Rec, INT
from cov import stl
from cov.smt import mp
from . import hoppers as H
from .hoppers import E, C, V, MIN, MAX, a, b, c as c_, d as d_, u, v as v_, ref, I

Q = "cottontail::gcl::InnerHopper"
VQ = "cottontail::gcl::VectorHopper"
F3 = lambda nm: z3.Function(nm, INT, INT, INT, INT)
wi, ni, na, nb, vi, ci = [F3("vec." + x) for x in ("wi", "ni", "na", "nb", "vi", "ci")]
M = stl._mark("index")
i, j, s, t, g_ = I("i!q"), I("j!q"), I("s!q"), I("t!q"), I("g!q")


def hops(c, st=None):
    v = c.fld(st or c.pre, "hoppers_")
    return v.d["len"], v.d["data"]


def model(c):
    x = ref(c)
    n, D = hops(c)
    inr = lambda k: z3.And(k >= 0, k < n, M(k))
    Hi = lambda k: z3.Select(D, k)
    strict = lambda p, q, s_, t_: z3.And(s_ <= p, q <= t_, z3.Or(s_ != p, q != t_))
    return [
        ("several operands", z3.And(n >= 1, n <= 1 << 40)),
        ("operands are set and are other objects", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(Hi(i) > 0, Hi(i) != x, H.sentinels(Hi(i)))), patterns=[Hi(i)])),
        ("operands are distinct objects", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n, i != j), Hi(i) != Hi(j)), patterns=[z3.MultiPattern(Hi(i), Hi(j))])),
        ("from an operand", z3.ForAll([a, b], z3.Implies(E(x, a, b), z3.And(inr(wi(x, a, b)), E(Hi(wi(x, a, b)), a, b))), patterns=[E(x, a, b)])),
        ("nothing nested", z3.ForAll([a, b, j, c_, d_], z3.Implies(z3.And(E(x, a, b), j >= 0, j < n, E(Hi(j), c_, d_)), z3.Not(strict(c_, d_, a, b))),
                                     patterns=[z3.MultiPattern(E(x, a, b), E(Hi(j), c_, d_))])),
        ("kept unless another is nested", z3.ForAll([j, a, b], z3.Implies(z3.And(j >= 0, j < n, E(Hi(j), a, b), z3.Not(E(x, a, b))), z3.And(
            inr(ni(x, a, b)), E(Hi(ni(x, a, b)), na(x, a, b), nb(x, a, b)), strict(na(x, a, b), nb(x, a, b), a, b))), patterns=[z3.MultiPattern(E(Hi(j), a, b), E(x, a, b))])),
        ("value of the last operand holding it", z3.ForAll([a, b], z3.Implies(E(x, a, b), z3.And(
            inr(vi(x, a, b)), E(Hi(vi(x, a, b)), a, b), V(x, a, b) == V(Hi(vi(x, a, b)), a, b))), patterns=[V(x, a, b)])),
        ("none later holds it", z3.ForAll([a, b, j], z3.Implies(z3.And(E(x, a, b), j > vi(x, a, b), j < n), z3.Not(E(Hi(j), a, b))),
                                          patterns=[z3.MultiPattern(E(x, a, b), E(Hi(j), a, b))])),
        ("contained: some operand", z3.ForAll([u, v_], z3.Implies(C(x, u, v_), z3.And(inr(ci(x, u, v_)), C(Hi(ci(x, u, v_)), u, v_))), patterns=[C(x, u, v_)])),
        ("contained: any operand", z3.ForAll([j, u, v_], z3.Implies(z3.And(j >= 0, j < n, C(Hi(j), u, v_)), C(x, u, v_)), patterns=[z3.MultiPattern(C(Hi(j), u, v_), C(x, u, v_))])),
        ("marks", z3.And(z3.ForAll([i], z3.And(M(i), stl.M_SLOT(i)), patterns=[M(i)]), z3.ForAll([i], stl.M_SLOT(i), patterns=[stl.M_SLOT(i)]))),
        ("counting", z3.And(stl.count_axioms())),
    ]


def el(Dq, f, k):
    return z3.Select(Dq.d[f], k)


def qfacts(c, q, up, bound):
    """q: the queue's value; up: tau (True) or uat; bound: the position it was filled for"""
    n, D = hops(c)
    l, Dq = q.d["len"], q.d["data"]
    inq = lambda k: z3.And(k >= 0, k < l)
    P, Qq, X = (lambda k: el(Dq, "p_", k)), (lambda k: el(Dq, "q_", k)), (lambda k: el(Dq, "index_", k))
    Hs = lambda k: z3.Select(D, X(k))
    pats = [X(s)]
    out = [
        ("indexes in range", z3.ForAll([s], z3.Implies(inq(s), z3.And(X(s) >= 0, X(s) < n)), patterns=pats)),
        ("distinct indexes", z3.ForAll([s, t], z3.Implies(z3.And(inq(s), inq(t), s != t), X(s) != X(t)), patterns=[z3.MultiPattern(X(s), X(t))])),
        ("entry's stream", z3.ForAll([s], z3.Implies(inq(s), el(Dq, "hopper_", s) == Hs(s)), patterns=[el(Dq, "hopper_", s)])),
        ("entry is an element", z3.ForAll([s], z3.Implies(inq(s), z3.And(E(Hs(s), P(s), Qq(s)), el(Dq, "v_", s) == V(Hs(s), P(s), Qq(s)))), patterns=[P(s), Qq(s), el(Dq, "v_", s)])),
    ]
    if up:
        out.append(("entry is first from %s" % bound[0], z3.ForAll([s, g_, a, b], z3.Implies(z3.And(inq(s), E(g_, a, b), g_ <= Hs(s), g_ >= Hs(s), a >= bound[1]), P(s) <= a),
                                                                 patterns=[mp(E(g_, a, b), X(s))])))
    else:
        out.append(("entry is last up to %s" % bound[0], z3.ForAll([s, g_, a, b], z3.Implies(z3.And(inq(s), E(g_, a, b), g_ <= Hs(s), g_ >= Hs(s), b <= bound[1]), Qq(s) >= b),
                                                                 patterns=[mp(E(g_, a, b), X(s))])))
    return out


def cover(c, q):
    n, D = hops(c)
    l, Dq = q.d["len"], q.d["data"]
    return ("every stream has an entry", z3.ForAll([i], z3.Implies(z3.And(M(i), i >= 0, i < n), z3.Exists([s], z3.And(
        stl.M_SLOT(s), s >= 0, s < l, el(Dq, "index_", s) == i), patterns=[stl.M_SLOT(s)])), patterns=[M(i)]))


def obj_inv(c, st):
    out = []
    n, D = hops(c)
    for up, qn, kn in ((True, "tau_queue_", "tau_k_"), (False, "uat_queue_", "uat_k_")):
        q = c.fld(st, qn)
        k = c.fld(st, kn)
        g = (k < MAX) if up else (k > MIN)
        out.append(("%s size" % qn, z3.Implies(g, q.d["len"] == n)))
        for nm, f in qfacts(c, q, up, (kn, k)) + [cover(c, q)]:
            out.append(("%s: %s" % (qn, nm), z3.Implies(g, f)))
    return out


def templates(c, lc):
    ex = lc.ex
    out = []
    n, D = hops(c)
    k0 = c.args[0] if c.args else None

    def pq_of(l):
        def g(st):
            return ex.read(l, st, facts=False)
        return g
    queues = []
    for nm, l in lc.cells():
        if l.t and l.t[0] == "pq":
            queues.append((nm, pq_of(l), "Tau" in str(l.t)))
    meth = c.ex.fname.split("::")[-1]
    for qn in (("tau_queue_",) if meth == "tau_" else ("uat_queue_",) if meth == "uat_" else ()):
        l = ex.field(c.this, qn)
        queues.append((qn, pq_of(l), qn[0] == "t"))
    mains = [nm for nm, g in lc.ints()]
    for qn, g, up in queues:
        for t_ in range(4):
            out.append(("%s fact %d" % (qn, t_), lambda st, g=g, up=up, t_=t_: qfacts(c, g(st), up, ("k", k0))[t_][1]))
        out.append(("%s bound k" % qn, lambda st, g=g, up=up: qfacts(c, g(st), up, ("k", k0))[4][1]))
        out.append(("%s cover" % qn, lambda st, g=g: cover(c, g(st))[1]))
        out.append(("%s size n" % qn, lambda st, g=g: g(st).d["len"] == n))
        out.append(("%s size>0" % qn, lambda st, g=g: g(st).d["len"] > 0))
        out.append(("%s all beyond k" % qn, lambda st, g=g, up=up: z3.ForAll([s], z3.Implies(z3.And(s >= 0, s < g(st).d["len"]), (
            el(g(st).d["data"], "p_", s) >= k0) if up else (el(g(st).d["data"], "q_", s) <= k0)), patterns=[el(g(st).d["data"], "p_" if up else "q_", s)])))
        for nm, gi in lc.ints():
            out.append(("%s size %s" % (qn, nm), lambda st, g=g, gi=gi: g(st).d["len"] == gi(st)))
        out.append(("%s in order" % qn, lambda st, g=g: z3.ForAll([s], z3.Implies(z3.And(s >= 0, s < g(st).d["len"]), el(g(st).d["data"], "index_", s) == s),
                                                                 patterns=[el(g(st).d["data"], "index_", s)])))
    for nm, gi in lc.ints():
        out.append(("%s<=n" % nm, lambda st, gi=gi: gi(st) <= n))
        out.append(("%s<n" % nm, lambda st, gi=gi: gi(st) < n))
    if meth not in ("L_", "R_"):
        return out
    # L_ and R_: the best answer of the streams seen so far
    x = ref(c)
    Hi = lambda k: z3.Select(D, k)
    for nm, gi in lc.ints():
        for nm2, gr in lc.ints():
            if nm == nm2:
                continue
            for w, cond, cmp_ in (("L", lambda: b <= k0, lambda r: a <= r), ("R", lambda: a >= k0, lambda r: b >= r)):
                out.append(("%s of streams below %s in %s" % (w, nm, nm2), lambda st, gi=gi, gr=gr, cond=cond, cmp_=cmp_: z3.ForAll([j, a, b], z3.Implies(
                    z3.And(j >= 0, j < gi(st), E(Hi(j), a, b), cond()), cmp_(gr(st))), patterns=[E(Hi(j), a, b)])))
        for w in "LR":
            lo = (lambda r: (r, k0)) if w == "L" else (lambda r: (k0, r))
            out.append(("%s answer %s is attained" % (w, nm), lambda st, gi=gi, lo=lo: z3.Or(C(x, *lo(gi(st))), z3.BoolVal(False))))
            out.append(("%s answer %s is extreme or attained" % (w, nm), lambda st, gi=gi, w=w, lo=lo: z3.Or(gi(st) == (MIN if w == "L" else MAX), C(x, *lo(gi(st))))))
    return out


def vec_contracts():
    out = []
    for nm in H.NAMES4:
        con = H.method_contract(Q, nm, lambda c: model(c) + obj_inv(c, c.pre), inv=templates, cls_of=Q)
        bp, bm, br = con._post, con._mods, con._pre
        if nm in ("tau", "uat"):
            # containment is not needed here
            con._pre = lambda c, br=br: [z for z in br(c) if not z[0].startswith("C-") and not z[0].startswith("contained")]

        def post(c, bp=bp):
            return obj_inv(c, c.post) + bp(c)

        def mods(c, bm=bm):
            return bm(c) + [c.ex.field(c.this, z) for z in ("tau_queue_", "uat_queue_", "tau_k_", "uat_k_")]
        con._post, con._mods = post, mods

        def meas(c, lc):
            out = []
            k0 = c.args[0]
            for qn, f in (("tau_queue_", lambda D: (D.d["p_"], k0)), ("uat_queue_", lambda D: (D.d["q_"], k0))):
                l = lc.ex.field(c.this, qn)
                if qn[0] == "t":
                    out.append((qn + " stale entries", lambda st, l=l: stl.CNT(lc.ex.read(l, st, facts=False).d["data"].d["p_"], lc.ex.read(l, st, facts=False).d["len"], k0)))
                else:
                    out.append((qn + " stale entries", lambda st, l=l: lc.ex.read(l, st, facts=False).d["len"] - stl.CNT(
                        lc.ex.read(l, st, facts=False).d["data"].d["q_"], lc.ex.read(l, st, facts=False).d["len"], k0 + 1)))
            return out
        con.meas = meas
        con.opts["count"] = (lambda ex: ex.cx.args[0]) if nm == "tau" else (lambda ex: ex.cx.args[0] + 1)
        out.append(con)
    for nm in "LR":
        out.append(H.method_contract(VQ, nm, model, inv=templates))
    return out


def vec_arg(ex, f, this):
    """the operand list, caller's"""
    from cov.ex import Loc, default_args
    return default_args(ex, f)


def ctor_templates(c, lc):
    """what has been copied so far"""
    ex = lc.ex
    out = []
    src = lambda st: c.at(st, "hoppers")
    dst = lambda st: c.fld(st, "hoppers_", *((None, None)))
    for nm, gi in lc.ints():
        out.append(("len==%s" % nm, lambda st, gi=gi: dst(st).d["len"] == gi(st)))
        out.append(("copied below %s" % nm, lambda st, gi=gi: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < gi(st)), z3.Select(dst(st).d["data"], i) == z3.Select(src(c.pre).d["data"], i)),
                                                                        patterns=[z3.Select(dst(st).d["data"], i)])))
        out.append(("%s<=n" % nm, lambda st, gi=gi: gi(st) <= src(c.pre).d["len"]))
    out.append(("source kept", lambda st: src(st).d["len"] == src(c.pre).d["len"]))
    out.append(("source kept'", lambda st: src(st).d["data"] == src(c.pre).d["data"]))
    return out


def ctor_contracts():
    def pre(c):
        v = c.at(c.pre, "hoppers")
        return [("length", z3.And(v.d["len"] >= 0, v.d["len"] <= 1 << 40))]

    def post(c):
        v, w = c.at(c.pre, "hoppers"), c.fld(c.post, "hoppers_")
        out = [("as many operands as given", w.d["len"] == v.d["len"]),
               ("the operands given, in order", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.d["len"]), z3.Select(w.d["data"], i) == z3.Select(v.d["data"], i)),
                                                          patterns=[z3.Select(w.d["data"], i)]))]
        return out + [("nothing cached: " + kn, c.fld(c.post, kn) == val) for kn, val in (("tau_k_", MAX), ("uat_k_", MIN))]

    def mods(c):
        cls = c.this.root[1]
        return [c.ex.field(c.this, nm) for _, nm, _, _ in c.ex.fields(cls)] + [c.loc("hoppers")] + \
            [l for o in H.NAMES4 for l in H.memo_locs(c, o)]
    base = Contract(VQ + "::VectorHopper", ["hoppers"], pre=pre, post=post, mods=mods, inv=ctor_templates)
    return [base]
