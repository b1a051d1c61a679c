"""Contracts of the interval streams (hoppers).

Abstract state of a hopper h: the set E(h) of intervals (p,q) it denotes,
including the two sentinels (-inf,-inf) and (+inf,+inf), no interval nested in
another; V(h,p,q) is the value carried by an interval; C(h,u,v) says that some
interval of E(h) lies inside [u,v]."""
import z3
from cov.ex import Contract, Loc
from cov.types_ import I64_MAX as MAX, I64_MIN as MIN, INT

I = z3.Int
B = z3.BoolSort()
E = z3.Function("E", INT, INT, INT, B)
C = z3.Function("C", INT, INT, INT, B)
V = z3.Function("V", INT, INT, INT, INT)
wa = z3.Function("wa", INT, INT, INT, INT)
wb = z3.Function("wb", INT, INT, INT, INT)
h, a, b, c, d, u, v, m = [I(x + "!q") for x in "habcduvm"]


def axioms():
    """properties of every well-formed hopper (the type's invariant)"""
    return [
        ("range", z3.ForAll([h, a, b], z3.Implies(E(h, a, b), z3.And(a >= MIN, a <= b, b <= MAX, (a == MIN) == (b == MIN), (a == MAX) == (b == MAX))),
                            patterns=[E(h, a, b)])),
        ("no-nesting", z3.ForAll([h, a, b, c, d], z3.Implies(z3.And(E(h, a, b), E(h, c, d)), z3.And((a < c) == (b < d), (a == c) == (b == d))),
                                 patterns=[z3.MultiPattern(E(h, a, b), E(h, c, d))])),
        ("C-intro", z3.ForAll([h, a, b, u, v], z3.Implies(z3.And(E(h, a, b), u <= a, b <= v), C(h, u, v)),
                              patterns=[z3.MultiPattern(E(h, a, b), C(h, u, v))])),
        ("C-self", z3.ForAll([h, a, b], z3.Implies(E(h, a, b), C(h, a, b)), patterns=[E(h, a, b)])),
        ("C-elim", z3.ForAll([h, u, v], z3.Implies(C(h, u, v), z3.And(E(h, wa(h, u, v), wb(h, u, v)), u <= wa(h, u, v), wb(h, u, v) <= v)),
                             patterns=[C(h, u, v)])),
    ]


def sentinels(x):
    return z3.And(E(x, MIN, MIN), E(x, MAX, MAX), V(x, MIN, MIN) == 0, V(x, MAX, MAX) == 0)


# what the four access methods return for the set E(x), argument k
def first_p(x, k, p, q):  # tau: first interval starting at or after k
    return [("is an element", E(x, p, q)), ("starts at or after k", p >= k),
            ("no earlier element starts at or after k", z3.ForAll([a, b], z3.Implies(z3.And(E(x, a, b), a >= k), p <= a), patterns=[E(x, a, b)]))]


def first_q(x, k, p, q):  # rho
    return [("is an element", E(x, p, q)), ("ends at or after k", q >= k),
            ("no earlier element ends at or after k", z3.ForAll([a, b], z3.Implies(z3.And(E(x, a, b), b >= k), q <= b), patterns=[E(x, a, b)]))]


def last_q(x, k, p, q):  # uat: last interval ending at or before k
    return [("is an element", E(x, p, q)), ("ends at or before k", q <= k),
            ("no later element ends at or before k", z3.ForAll([a, b], z3.Implies(z3.And(E(x, a, b), b <= k), q >= b), patterns=[E(x, a, b)]))]


def last_p(x, k, p, q):  # ohr
    return [("is an element", E(x, p, q)), ("starts at or before k", p <= k),
            ("no later element starts at or before k", z3.ForAll([a, b], z3.Implies(z3.And(E(x, a, b), a <= k), p >= a), patterns=[E(x, a, b)]))]


ACC = {"tau": first_p, "rho": first_q, "uat": last_q, "ohr": last_p}


def L_post(x, k, l):
    return [("an element lies in [L(k),k]", C(x, l, k)),
            ("no element lies in [u,k] for u > L(k)", z3.ForAll([u], z3.Implies(u > l, z3.Not(C(x, u, k))), patterns=[C(x, u, k)])),
            ("no later element ends by k", z3.ForAll([a, b], z3.Implies(z3.And(E(x, a, b), b <= k), a <= l), patterns=[E(x, a, b)]))]


def R_post(x, k, r):
    return [("an element lies in [k,R(k)]", C(x, k, r)),
            ("no element lies in [k,v] for v < R(k)", z3.ForAll([v], z3.Implies(v < r, z3.Not(C(x, k, v))), patterns=[C(x, k, v)])),
            ("no earlier element starts from k", z3.ForAll([a, b], z3.Implies(z3.And(E(x, a, b), a >= k), b >= r), patterns=[E(x, a, b)]))]


def sig_n(n, last=None):
    def f(decl):
        s = decl["type"]["qualType"]
        ps = s[s.index("(") + 1:s.rindex(")")].split(",")
        if len(ps) != n:
            return False
        return last is None or last in ps[-1]
    return f


def ref(c):
    return c.this.root[2]


def hopper_facts(x):
    return axioms() + [("sentinels", sentinels(x))]


def public_contracts():
    """contracts of the non-virtual entry points, as every caller sees them"""
    out = {}

    def acc(name, n, last):
        def post(c, f=ACC[name]):
            x = ref(c)
            p, q = c.at(c.post, "p"), c.at(c.post, "q")
            r = f(x, c["k"], p, q)
            if n == 4:
                r = r + [("value", c.at(c.post, "v") == V(x, p, q))]
            return r + [("sentinels", sentinels(x))]
        names = ["k", "p", "q"] + (["v"] if n == 4 else [])
        return Contract("cottontail::Hopper::" + name, names, post=post, mods=lambda c: [c.loc(z) for z in names[1:]],
                        sig=sig_n(n, last))
    for nm in ACC:
        out["cottontail::Hopper::" + nm] = [acc(nm, 3, None), acc(nm, 4, None)]
    I64 = ("int", 64, True)
    out["cottontail::Hopper::L"] = Contract("cottontail::Hopper::L", ["k"], ret=I64,
                                            post=lambda c: L_post(ref(c), c["k"], c.ret) + [("sentinels", sentinels(ref(c)))])
    out["cottontail::Hopper::R"] = Contract("cottontail::Hopper::R", ["k"], ret=I64,
                                            post=lambda c: R_post(ref(c), c["k"], c.ret) + [("sentinels", sentinels(ref(c)))])
    return out


def method_contract(cls, name, model, children=(), inv=None, opts=None, cls_of=None):
    """contract of the virtual <cls>::<name>_ : the access method of the class"""
    q = "%s::%s" % (cls, name + "_")

    def pre(c):
        x = ref(c)
        out = list(axioms())
        for ch in children:
            y = c.fld(c.pre, ch)
            out += [(ch + " is set", y > 0), (ch + " is another object", y != x), ("sentinels of " + ch, sentinels(y))]
        if len(children) == 2:
            pass
        out += [("sentinels", sentinels(x))]
        out += model(c)
        if name in ACC:
            out += [("*v is zero on entry", c.at(c.pre, "v") == 0)]
        return out

    def post(c):
        x = ref(c)
        if name in ACC:
            p, q_ = c.at(c.post, "p"), c.at(c.post, "q")
            return ACC[name](x, c["k"], p, q_) + [("value", c.at(c.post, "v") == V(x, p, q_))]
        return (L_post if name == "L" else R_post)(x, c["k"], c.ret)
    names = ["k", "p", "q", "v"] if name in ACC else ["k"]
    return Contract(q, names, pre=pre, post=post, mods=(lambda c: [c.loc(z) for z in names[1:]]), inv=inv or set_templates, opts=opts or {}, cls=cls_of)


def kids(c):
    out = [("this", ref(c))]
    for ch in ("left_", "right_", "expr_"):
        try:
            out.append((ch, c.fld(c.pre, ch)))
        except Exception:
            pass
    return out


def set_templates(c, lc):
    """loop invariants over the abstraction: what the walk has already ruled out,
    and which variables hold an element"""
    out = []
    ints = lc.ints()
    k0 = c.args[0]
    if not isinstance(k0, z3.ExprRef):
        return out
    hs = kids(c)
    conds = [("a>=k", lambda: a >= k0), ("b>=k", lambda: b >= k0), ("a<=k", lambda: a <= k0), ("b<=k", lambda: b <= k0)]
    for nm, g in ints:
        out.append(("%s>=k0" % nm, lambda st, g=g: g(st) >= k0))
        out.append(("%s<=k0" % nm, lambda st, g=g: g(st) <= k0))
        for z, val in (("MIN", MIN), ("MAX", MAX)):
            out.append(("%s!=%s" % (nm, z), lambda st, g=g, val=val: g(st) != val))
        for cn, cf in conds:
            for comp, cv in (("a", a), ("b", b)):
                for opn, op in (("<=", lambda x, y: x <= y), (">=", lambda x, y: x >= y), ("<", lambda x, y: x < y), (">", lambda x, y: x > y)):
                    if (opn in ("<=", "<")) == (">=" in cn):
                        x = ref(c)
                        out.append(("forall E: %s => %s %s %s" % (cn, nm, opn, comp),
                                    lambda st, g=g, cf=cf, cv=cv, op=op, x=x: z3.ForAll([a, b], z3.Implies(z3.And(E(x, a, b), cf()), op(g(st), cv)),
                                                                                   patterns=[E(x, a, b)])))
    vals = fvals(lc)
    for n1, g1 in ints:
        for n2, g2 in ints:
            if n1 == n2:
                continue
            for hn, x in hs:
                out.append(("E(%s,%s,%s)" % (hn, n1, n2), lambda st, g1=g1, g2=g2, x=x: E(x, g1(st), g2(st))))
                for vn, vg in vals:
                    out.append(("%s==V(%s,%s,%s)" % (vn, hn, n1, n2), lambda st, g1=g1, g2=g2, x=x, vg=vg: vg(st) == V(x, g1(st), g2(st))))
    return out


def fvals(lc):
    from cov.ex import PVar
    out = []
    ex = lc.ex
    for nm, l in lc.cells():
        vv = ex.read(l, lc.entry, facts=False)
        if isinstance(vv, PVar) and vv.loc.t and vv.loc.t[0] == "fval":
            out.append(("*" + nm, lambda st, l=vv.loc: ex.read(l, st, facts=False)))
        elif l.t and l.t[0] == "fval" and isinstance(vv, z3.ExprRef):
            out.append((nm, lambda st, l=l: ex.read(l, st, facts=False)))
    return out


# ---------------------------------------------------------------- class models
def two(c):
    return c.fld(c.pre, "left_"), c.fld(c.pre, "right_")


def novalue(x):
    return ("an operator's own intervals carry no value", z3.ForAll([a, b], V(x, a, b) == 0, patterns=[V(x, a, b)]))


def m_and(c):
    x, (l, r) = ref(c), two(c)
    return [("both", z3.ForAll([u, v], C(x, u, v) == z3.And(C(l, u, v), C(r, u, v)), patterns=[C(x, u, v)])), novalue(x)]


def m_or(c):
    x, (l, r) = ref(c), two(c)
    return [("either", z3.ForAll([u, v], C(x, u, v) == z3.Or(C(l, u, v), C(r, u, v)), patterns=[C(x, u, v)])), novalue(x)]


fm = z3.Function("fm", INT, INT, INT, INT)


def m_followed(c):
    x, (l, r) = ref(c), two(c)
    return [("split", z3.ForAll([u, v], z3.Implies(C(x, u, v), z3.Or(u <= MIN, v >= MAX, z3.And(
        C(l, u, fm(x, u, v)), C(r, fm(x, u, v) + 1, v), fm(x, u, v) < MAX))), patterns=[C(x, u, v)])),
        ("join", z3.ForAll([u, v, m], z3.Implies(z3.And(C(l, u, m), m < MAX, C(r, m + 1, v)), C(x, u, v)),
                           patterns=[z3.MultiPattern(C(l, u, m), C(x, u, v))])),
        ("ends", z3.ForAll([u, v], z3.Implies(z3.Or(u <= MIN, v >= MAX), C(x, u, v)), patterns=[C(x, u, v)])),
        novalue(x)]


ca = z3.Function("ca", INT, INT, INT, INT)
cb = z3.Function("cb", INT, INT, INT, INT)


def inside(p, q, s, t):
    """(p,q) lies inside (s,t)"""
    return z3.And(s <= p, q <= t)


def m_filter(kind):
    def f(c):
        x, (l, r) = ref(c), two(c)
        if kind in ("in", "notin"):
            rel = lambda p, q, s, t: inside(p, q, s, t)
        else:
            rel = lambda p, q, s, t: inside(s, t, p, q)
        sub = ("subset of the left operand", z3.ForAll([a, b], z3.Implies(E(x, a, b), z3.And(E(l, a, b), V(x, a, b) == V(l, a, b))), patterns=[E(x, a, b)]))
        if kind in ("in", "ing"):
            return [sub,
                    ("has a witness", z3.ForAll([a, b], z3.Implies(E(x, a, b), z3.And(
                        E(r, ca(x, a, b), cb(x, a, b)), rel(a, b, ca(x, a, b), cb(x, a, b)))), patterns=[E(x, a, b)])),
                    ("a witness suffices", z3.ForAll([a, b, u, v], z3.Implies(z3.And(E(l, a, b), E(r, u, v), rel(a, b, u, v)), E(x, a, b)),
                                                     patterns=[z3.MultiPattern(E(l, a, b), E(r, u, v))])),
                    ("same value", z3.ForAll([a, b], z3.Implies(E(x, a, b), V(x, a, b) == V(l, a, b)), patterns=[V(x, a, b)]))]
        sent = lambda p: z3.Or(p == MIN, p == MAX)
        return [sub,
                ("has no witness", z3.ForAll([a, b, u, v], z3.Implies(z3.And(E(x, a, b), z3.Not(sent(a)), E(r, u, v)), z3.Not(rel(a, b, u, v))),
                                             patterns=[z3.MultiPattern(E(x, a, b), E(r, u, v))])),
                ("no witness suffices", z3.ForAll([a, b], z3.Implies(z3.And(E(l, a, b), z3.Not(E(x, a, b))), z3.And(
                    z3.Not(sent(a)), E(r, ca(x, a, b), cb(x, a, b)), rel(a, b, ca(x, a, b), cb(x, a, b)))), patterns=[E(l, a, b)])),
                ("same value", z3.ForAll([a, b], z3.Implies(E(x, a, b), V(x, a, b) == V(l, a, b)), patterns=[V(x, a, b)]))]
    return f


def no_model(c):
    return [novalue(ref(c))]


G = "cottontail::gcl::"


def gcl_contracts():
    out = []
    for cls, md in (("And", m_and), ("Or", m_or), ("FollowedBy", m_followed)):
        for nm in ("L", "R"):
            out.append(method_contract(G + cls, nm, md, ("left_", "right_")))
    for nm in ("tau", "rho", "uat", "ohr"):
        out.append(method_contract(G + "Combinational", nm, no_model))
    for cls, kind in (("ContainedIn", "in"), ("Containing", "ing"), ("NotContainedIn", "notin"), ("NotContaining", "noting")):
        for nm in ("tau", "rho", "uat", "ohr"):
            out.append(method_contract(G + cls, nm, m_filter(kind), ("left_", "right_")))
    return out


# ------------------------------------------------- the memoising entry points
HQ = "cottontail::Hopper::"
NAMES4 = ("tau", "rho", "uat", "ohr")


def memo_locs(c, nm):
    return [c.ex.field(c.this, "%s_%s_" % (nm, z)) for z in ("k", "p", "q", "v")]


def memo_inv(c, st, nm):
    x = ref(c)
    k, p, q, v_ = [c.fld(st, "%s_%s_" % (nm, z)) for z in ("k", "p", "q", "v")]
    return [("cached %s answer: %s" % (nm, t), f) for t, f in ACC[nm](x, k, p, q) + [("value", v_ == V(x, p, q))]]


def virtual_contracts():
    """what each class's own access method guarantees (its entry in the vtable)"""
    out = {}
    for nm in NAMES4:
        def pre(c, nm=nm):
            return [("*v is zero on entry", c.at(c.pre, "v") == 0)] + [z for o in NAMES4 if o != nm for z in memo_inv(c, c.pre, o)]

        def post(c, nm=nm):
            x = ref(c)
            p, q = c.at(c.post, "p"), c.at(c.post, "q")
            return ACC[nm](x, c["k"], p, q) + [("value", c.at(c.post, "v") == V(x, p, q))] + \
                [z for o in NAMES4 if o != nm for z in memo_inv(c, c.post, o)]

        def mods(c, nm=nm):
            return [c.loc(z) for z in ("p", "q", "v")] + [l for o in NAMES4 if o != nm for l in memo_locs(c, o)]
        out[HQ + nm + "_"] = Contract(HQ + nm + "_", ["k", "p", "q", "v"], pre=pre, post=post, mods=mods)
    I64 = ("int", 64, True)
    for nm, f in (("L", L_post), ("R", R_post)):
        out[HQ + nm + "_"] = Contract(HQ + nm + "_", ["k"], ret=I64, post=lambda c, f=f: f(ref(c), c["k"], c.ret))
    return out


def wrapper_contracts():
    out = []
    for nm in NAMES4:
        def pre(c):
            return hopper_facts(ref(c)) + [z for o in NAMES4 for z in memo_inv(c, c.pre, o)]

        def mk(n, last):
            names = ["k", "p", "q"] + (["v"] if n == 4 else [])

            def post(c, nm=nm):
                x = ref(c)
                p, q = c.at(c.post, "p"), c.at(c.post, "q")
                r = ACC[nm](x, c["k"], p, q)
                if n == 4:
                    r = r + [("value", c.at(c.post, "v") == V(x, p, q))]
                return r + [z for o in NAMES4 for z in memo_inv(c, c.post, o)]

            def mods(c):
                return [c.loc(z) for z in names[1:]] + [l for o in NAMES4 for l in memo_locs(c, o)]
            return Contract(HQ + nm, names, pre=pre, post=post, mods=mods, sig=sig_n(n, last), opts={"label": "(%s)" % ("value" if last == "fval" else "addr" if n == 4 else "no value")})
        out += [mk(4, "fval"), mk(4, "addr"), mk(3, None)]

    # a new object's memo describes its sentinels
    def cpost(c):
        return [z for o in NAMES4 for z in memo_inv(c, c.post, o)]
    out.append(Contract("cottontail::Hopper::Hopper", [], pre=lambda c: hopper_facts(ref(c)), post=cpost,
                        mods=lambda c: [l for o in NAMES4 for l in memo_locs(c, o)], sig=lambda d: "void ()" == d["type"]["qualType"]))
    # L, R and their defaults
    for nm, f in (("L", L_post), ("R", R_post), ("L_", L_post), ("R_", R_post)):
        out.append(Contract(HQ + nm, ["k"], pre=lambda c: hopper_facts(ref(c)), post=lambda c, f=f: f(ref(c), c["k"], c.ret)))
    return out


# ----------------------------------------------------------------- leaf streams
def elements(x, cond, val=None):
    """E(x) is exactly the intervals satisfying cond, plus the two sentinels"""
    sent = lambda a, b: z3.Or(z3.And(a == MIN, b == MIN), z3.And(a == MAX, b == MAX))
    out = [("elements", z3.ForAll([a, b], E(x, a, b) == z3.Or(sent(a, b), cond(a, b)), patterns=[E(x, a, b)])),
           ("values", z3.ForAll([a, b], V(x, a, b) == (0 if val is None else z3.If(sent(a, b), 0, val(a, b))), patterns=[V(x, a, b)]))]
    return out


def m_empty(c):
    return elements(ref(c), lambda a, b: z3.BoolVal(False))


def m_single(c):
    p, q, v_ = c.fld(c.pre, "p_"), c.fld(c.pre, "q_"), c.fld(c.pre, "v_")
    return [("ordered", z3.And(MIN < p, p <= q, q < MAX))] + elements(ref(c), lambda a, b: z3.And(a == p, b == q), lambda a, b: v_) + [
        ("present", E(ref(c), p, q))]


def m_fixed(c):
    w = c.fld(c.pre, "width_")
    x = ref(c)
    return [("positive width", w >= 1)] + elements(x, lambda a, b: z3.And(a > MIN, b < MAX, b - a == w - 1)) + [
        ("all windows", z3.ForAll([a, b], z3.Implies(z3.And(a > MIN, b < MAX, b - a == w - 1), E(x, a, b)), patterns=[E(x, a, b)]))]


def leaf_contracts():
    out = []
    for cls, md in (("EmptyHopper", m_empty), ("SingletonHopper", m_single), ("FixedWidthHopper", m_fixed)):
        for nm in NAMES4:
            out.append(method_contract("cottontail::" + cls, nm, md))
    return out


# --------------------------------------------------------------- array streams
ix = z3.Function("ix", INT, INT, INT, INT)
i_, j_ = I("i!q"), I("j!q")


def ah_setup(ex, f, this):
    """the arrays the object is bound to, as blocks of memory"""
    from cov.ex import PMem, default_args, PVar
    ad = ("int", 64, True)
    P, Q, F = I("P!0"), I("Q!0"), I("F!0")
    for nm, t, blk in (("postings_", ad, P), ("qostings_", ad, Q), ("fostings_", ("fval",), F)):
        ex.write(ex.field(this, nm), PMem(t, blk, z3.IntVal(0)))
    return default_args(ex, f)


def ah_arr(c, st, nm, t):
    blk = c.fld(st, nm).blk
    return z3.Select(c.ex.memmap(st, t), blk), blk


def m_array(c):
    ad = ("int", 64, True)
    ex, st, x = c.ex, c.pre, ref(c)
    n = c.fld(st, "n_")
    A, P = ah_arr(c, st, "postings_", ad)
    B_, Q = ah_arr(c, st, "qostings_", ad)
    F, fb = ah_arr(c, st, "fostings_", ("fval",))
    cur = c.fld(st, "current_")
    inr = lambda i: z3.And(i >= 0, i < n)
    sent = lambda a, b: z3.Or(z3.And(a == MIN, b == MIN), z3.And(a == MAX, b == MAX))
    fv = lambda i: z3.If(fb == 0, 0, z3.Select(F, i))
    i, j = i_, j_
    return [
        ("bound", c.fld(st, "ready_")), ("not empty", z3.And(n > 0, n <= 1 << 60)), ("cursor", inr(cur)),
        ("blocks", z3.And(P > 0, Q > 0, fb >= 0, P < st.alloc, Q < st.alloc, fb < st.alloc, ex.blen(P) == n, ex.blen(Q) == n, z3.Implies(fb > 0, ex.blen(fb) == n))),
        ("sorted starts", z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j)), (i < j) == (A[i] < A[j])), patterns=[z3.MultiPattern(A[i], A[j])])),
        ("sorted ends", z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j)), (i < j) == (B_[i] < B_[j])), patterns=[z3.MultiPattern(B_[i], B_[j])])),
        ("intervals", z3.ForAll([i], z3.Implies(inr(i), z3.And(MIN < A[i], A[i] <= B_[i], B_[i] < MAX)), patterns=[A[i]])),
        ("intervals'", z3.ForAll([i], z3.Implies(inr(i), z3.And(MIN < A[i], A[i] <= B_[i], B_[i] < MAX)), patterns=[B_[i]])),
        ("elements of the arrays", z3.ForAll([a, b], z3.Implies(E(x, a, b), z3.Or(sent(a, b), z3.And(
            inr(ix(x, a, b)), A[ix(x, a, b)] == a, B_[ix(x, a, b)] == b, V(x, a, b) == fv(ix(x, a, b))))), patterns=[E(x, a, b)])),
        ("array entries are elements", z3.ForAll([i], z3.Implies(inr(i), z3.And(E(x, A[i], B_[i]), V(x, A[i], B_[i]) == fv(i))), patterns=[A[i]])),
        ("array entries are elements'", z3.ForAll([i], z3.Implies(inr(i), z3.And(E(x, A[i], B_[i]), V(x, A[i], B_[i]) == fv(i))), patterns=[B_[i]])),
    ]


def ah_templates(c, lc):
    """search invariants: which side of k the array is on at each index variable"""
    ad = ("int", 64, True)
    out = []
    k0 = c.args[0]
    for nm, g in lc.ints():
        for an in ("postings_", "qostings_"):
            A, _ = ah_arr(c, c.pre, an, ad)
            n = c.fld(c.pre, "n_")
            for off in (0, -1):
                for opn, op in (("<", lambda x, y: x < y), (">", lambda x, y: x > y), ("<=", lambda x, y: x <= y), (">=", lambda x, y: x >= y)):
                    out.append(("%s[%s%+d]%sk" % (an, nm, off, opn), lambda st, g=g, A=A, op=op, off=off: op(z3.Select(A, g(st) + off), k0)))
        n = c.fld(c.pre, "n_")
        out.append(("%s<n" % nm, lambda st, g=g, n=n: g(st) < n))
        out.append(("%s<=n" % nm, lambda st, g=g, n=n: g(st) <= n))
    ints = lc.ints()
    for n1, g1 in ints:
        for n2, g2 in ints:
            if n1 < n2:
                n = c.fld(c.pre, "n_")
                out.append(("%s+%s<2n" % (n1, n2), lambda st, g1=g1, g2=g2, n=n: g1(st) + g2(st) <= 2 * n))
    for nm, g in ints:
        n = c.fld(c.pre, "n_")
        out.append(("%s<=2n" % nm, lambda st, g=g, n=n: g(st) <= 2 * n))
    return out


def array_contracts():
    out = []
    for nm in NAMES4 + ("L", "R"):
        con = method_contract("cottontail::ArrayHopper", nm, m_array, inv=ah_templates)
        con.setup = ah_setup
        bp, bm = con._post, con._mods

        def post(c, bp=bp):
            cur, n = c.fld(c.post, "current_"), c.fld(c.post, "n_")
            return bp(c) + [("cursor stays in range", z3.And(cur >= 0, cur < n))]

        def mods(c, bm=bm):
            return (bm(c) if bm and len(c.args) > 1 else []) + [c.ex.field(c.this, "current_")]
        con._post, con._mods = post, mods
        out.append(con)
    return out


# ------------------------------------------------------------------------ Merge
def m_merge(c):
    """minimal elements of the union; on a tie the left operand's value"""
    x, (l, r) = ref(c), two(c)
    strict = lambda p, q, s, t: z3.And(s <= p, q <= t, z3.Or(s != p, q != t))
    out = [("from an operand", z3.ForAll([a, b], z3.Implies(E(x, a, b), z3.Or(E(l, a, b), E(r, a, b))), patterns=[E(x, a, b)]))]
    for s, o, fa, fb in ((l, r, ca, cb), (r, l, da, db)):
        out += [("kept unless another is nested", z3.ForAll([a, b], z3.Implies(z3.And(E(s, a, b), z3.Not(E(x, a, b))), z3.And(
            E(o, fa(x, a, b), fb(x, a, b)), strict(fa(x, a, b), fb(x, a, b), a, b))), patterns=[E(s, a, b)])),
            ("nothing nested", z3.ForAll([a, b, u, v], z3.Implies(z3.And(E(x, a, b), E(s, u, v)), z3.Not(strict(u, v, a, b))),
                                         patterns=[z3.MultiPattern(E(x, a, b), E(s, u, v))]))]
    out.append(("value", z3.ForAll([a, b], z3.Implies(E(x, a, b), V(x, a, b) == z3.If(E(l, a, b), V(l, a, b), V(r, a, b))), patterns=[V(x, a, b)])))
    return out


da = z3.Function("da", INT, INT, INT, INT)
db = z3.Function("db", INT, INT, INT, INT)


def merge_contracts():
    return [method_contract(G + "Merge", nm, m_merge, ("left_", "right_")) for nm in NAMES4]

ASSUME = [
    "the two operands and the node itself are distinct objects (tree ownership)",
    "out-parameters of one call are distinct variables",
    "operands satisfy the stream contract (discharged for every class in the library by properties of leaf streams and operators)",
    "an fval is compared as its 64-bit pattern",
    "single-threaded use of one hopper (the header says hoppers are thread local)",
]


def reentrancy(files):
    """no access method of a class reaches itself on the same object: while a
    memo is half written nobody reads it. Decided on the call graph of 'this'."""
    from cov.cast import TU
    out = []
    for f in files:
        tu = TU(f)
        names = ("tau", "rho", "uat", "ohr", "L", "R")
        impl = {}
        for cls in tu.classes:
            if "::" not in cls or not cls.startswith("cottontail"):
                continue
            for nm in names:
                for fn in tu.funcs.get("%s::%s_" % (cls, nm), []):
                    impl[(cls, nm)] = fn
        for (cls, _) in sorted(set((c_, "") for c_, _ in impl)):
            # resolve along the bases
            def lookup(nm, c_=cls):
                while c_:
                    if (c_, nm) in impl:
                        return impl[(c_, nm)]
                    n = tu.classes.get(c_)
                    b_ = n.get("bases", []) if n else []
                    c2 = None
                    if b_:
                        s = b_[0]["type"].get("desugaredQualType") or b_[0]["type"]["qualType"]
                        c2 = s if s in tu.classes else next((x for x in tu.classes if x.endswith("::" + s)), None)
                    c_ = c2
                return None
            edges = {}
            for nm in names:
                fn = lookup(nm)
                if fn is None:
                    if nm in ("L", "R"):
                        edges[nm] = {"uat" if nm == "L" else "tau"}
                    continue
                edges[nm] = this_calls(fn, names, tu)
            bad = None
            for s in edges:
                seen, st = set(), list(edges.get(s, ()))
                while st:
                    x = st.pop()
                    if x == s:
                        bad = s
                        break
                    if x not in seen:
                        seen.add(x)
                        st += list(edges.get(x, ()))
            if any(c2 != cls and is_base(tu, cls, c2) for c2, _ in impl):
                continue  # a base class: its subclasses are the objects
            out.append({"kind": "non-reentrancy", "obligation": "access methods of %s never re-enter themselves on the same object" % cls.split("::")[-1],
                        "where": cls, "verdict": "refuted" if bad else "proved", "backend": "call graph", "detail": bad})
    return out


def is_base(tu, base, cls):
    n = tu.classes.get(cls)
    for b_ in (n.get("bases", []) if n else []):
        s = b_["type"].get("desugaredQualType") or b_["type"]["qualType"]
        c2 = s if s in tu.classes else next((x for x in tu.classes if x.endswith("::" + s)), None)
        if c2 and (c2 == base or is_base(tu, base, c2)):
            return True
    return False


def this_calls(fn, names, tu, depth=0):
    out = set()
    st = [fn]
    while st:
        x = st.pop()
        if x.get("kind") == "CXXMemberCallExpr":
            me = x["inner"][0]
            while me["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                me = me["inner"][0]
            if me["kind"] == "MemberExpr":
                b_ = me["inner"][0]
                while b_["kind"] in ("ImplicitCastExpr", "ParenExpr"):
                    b_ = b_["inner"][0]
                if b_["kind"] == "CXXThisExpr":
                    nm = (me.get("name") or "").rstrip("_")
                    if nm in names:
                        out.add(nm)
                    elif depth < 4:
                        q = tu.idq.get(me.get("referencedMemberDecl"))
                        for g in tu.funcs.get(q, []):
                            out |= this_calls(g, names, tu, depth + 1)
        st += [c_ for c_ in x.get("inner", []) if c_]
    return out
