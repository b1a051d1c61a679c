"""Contracts of transactions: the protocol object and the hooks behind it.

Ghost phase of a protocol object: 0 idle, 1 open, 2 voted to commit, 3 voted
against.  The hooks are known by what the protocol promises them (pre) and what
they do to the phase (post)."""
import z3
from cov.ex import Contract, Loc
from cov.types_ import INT

CM = "cottontail::Committable"
BOOL = ("bool",)


def phase(c, st, x=None):
    x = c.this.root[2] if x is None else x
    return z3.Select(st.heap.setdefault((CM, "$phase"), c.ex.heap_init.setdefault((CM, "$phase"), z3.Const("phase!0", z3.ArraySort(INT, INT)))), x)


def phase_loc(c, x=None):
    x = c.this.root[2] if x is None else x
    phase(c, c.ex.st)
    return Loc(("heap", CM, "$phase", x), (), ("int", 64, True))


def flag(c, st, n):
    return c.ex.read(c.ex.field(c.ex.obj(c.this.root[2], CM), n), st, facts=False)


def linked(c, st):
    """the object's flags say which phase it is in"""
    p = phase(c, st)
    return [("open flag", flag(c, st, "started_") == (p != 0)), ("voted flag", z3.Implies(p != 0, flag(c, st, "readied_") == (p >= 2))),
            ("vote", z3.Implies(p != 0, flag(c, st, "vote_") == (p == 2))), ("phase", z3.And(p >= 0, p <= 3))]


def free(c, st):
    return ("lock is free", flag(c, st, "lock_") == 0)


FL = ("started_", "readied_", "vote_", "lock_")


def mods(c):
    return [c.ex.field(c.ex.obj(c.this.root[2], CM), n) for n in FL] + [phase_loc(c)]


def protocol(inside=True):
    """inside: for the methods themselves; else for their callers, who know the phase only (that the
    flags agree with it is an invariant of the class)"""
    def con(name, pre, post, ret):
        if not inside:
            return Contract(CM + "::" + name, ["error"] if ret else [], pre=pre, post=lambda c: post(c, phase(c, c.pre), phase(c, c.post)),
                            mods=lambda c: [phase_loc(c)], ret=BOOL if ret else None)

        def p(c):
            return linked(c, c.pre) + [free(c, c.pre)] + pre(c)

        def q(c):
            return linked(c, c.post) + [free(c, c.post)] + post(c, phase(c, c.pre), phase(c, c.post))
        return Contract(CM + "::" + name, ["error"] if ret else [], pre=p, post=q, mods=mods, ret=BOOL if ret else None, cls=CM, opts={"mutex": True})
    r = lambda c: c.ex.as_bool(c.ret)
    return [
        con("transaction", lambda c: [], lambda c, a, b: [("a second transaction is refused and changes nothing", z3.Implies(a != 0, z3.And(z3.Not(r(c)), b == a))),
                                                          ("otherwise open exactly if it says so", z3.Implies(a == 0, b == z3.If(r(c), 1, 0)))], True),
        con("ready", lambda c: [], lambda c, a, b: [("nothing open: refused", z3.Implies(a == 0, z3.And(z3.Not(r(c)), b == 0))),
                                                    ("the vote is what it says", z3.Implies(a != 0, b == z3.If(r(c), 2, 3))),
                                                    ("a vote stays", z3.Implies(a >= 2, b == a))], True),
        con("commit", lambda c: [("voted to commit", phase(c, c.pre) == 2)], lambda c, a, b: [("closed", b == 0)], False),
        con("abort", lambda c: [], lambda c, a, b: [("closed", b == 0)], False),
    ]


def hooks():
    """what the protocol promises its hooks"""
    def con(name, pre, post, ret):
        return Contract(CM + "::" + name, ["error"] if ret else [], pre=lambda c: [(pre[0], pre[1](phase(c, c.pre))), ("called with the lock held", flag(c, c.pre, "lock_") == 1)],
                        post=lambda c: post(c, phase(c, c.pre), phase(c, c.post)), mods=lambda c: [phase_loc(c)], ret=BOOL if ret else None, assumed=True)
    r = lambda c: c.ex.as_bool(c.ret)
    return [
        con("transaction_", ("only when idle", lambda p: p == 0), lambda c, a, b: [("", b == z3.If(r(c), 1, 0))], True),
        con("ready_", ("once per transaction", lambda p: p == 1), lambda c, a, b: [("", b == z3.If(r(c), 2, 3))], True),
        con("commit_", ("only after a vote to commit", lambda p: p == 2), lambda c, a, b: [("", b == 0)], False),
        con("abort_", ("only in a transaction", lambda p: p >= 1), lambda c, a, b: [("", b == 0)], False),
    ]


def contracts():
    return {c.q: c for c in hooks()}


# ------------------------------------------------------------------ Bigwig
BW, FI, FF = "cottontail::Bigwig", "cottontail::Fiver", "cottontail::Fluffle"
APPENDED = z3.Function("appended", INT, INT)  # tokens a transaction has appended
SHARED = ["address", "sequence", "warrens", "cache", "parameters", "merging", "workers"]


def shared_inv(ex, st, x):
    g = lambda n: ex.read(ex.field(ex.obj(x, FF), n), st, facts=False)
    return [("addresses are used upwards from zero", g("address") >= 0), ("sequence numbers too", g("sequence") >= 0),
            ("limit: room", z3.And(g("address") <= 1 << 60, g("sequence") <= 1 << 60, g("warrens").d["len"] <= 1 << 40))]


GUARD = {(FF, "lock"): {"fields": SHARED, "inv": shared_inv}}


def ff(c, st, n):
    x = c.fld(c.pre, "fluffle_")
    return c.ex.read(c.ex.field(c.ex.obj(x, FF), n), st, facts=False)


def fiv(c, st, n, x=None):
    x = c.fld(c.pre, "fiver_") if x is None else x
    return c.ex.read(c.ex.field(c.ex.obj(x, FI), n), st, facts=False)


def same_vec(a, b, n=None):
    i = z3.Int("i!q")
    n = a.d["len"] if n is None else n
    return z3.And(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(a.d["data"], i) == z3.Select(b.d["data"], i)), patterns=[z3.Select(b.d["data"], i)]))


def sections(c):
    """the critical sections of the shared state this path went through"""
    x = c.fld(c.pre, "fluffle_")
    return [(a, b) for r, a, b in c.ex.st.ghost.get("sections", ()) if r[3].eq(x) or z3.is_true(z3.simplify(r[3] == x))]


def unchanged(c, a, b, but=()):
    out = []
    for n in SHARED:
        if n in but or n in ("workers",):
            continue
        u, v = ff(c, a, n), ff(c, b, n)
        if n == "warrens":
            out.append(z3.And(u.d["len"] == v.d["len"], same_vec(u, v)))
        elif z3.is_expr(u):
            out.append(u == v)
    return z3.And(out) if out else z3.BoolVal(True)


def bigwig():
    r = lambda c: c.ex.as_bool(c.ret)
    base = {"mutex": True, "guarded": GUARD, "ext": {}}

    def fl_pre(c):
        x = c.fld(c.pre, "fluffle_")
        return [("shared state is there", x > 0), ("its lock is free", ff(c, c.pre, "lock") == 0), ("lock released", z3.BoolVal(True))]

    def mods(c, *extra):
        x = c.fld(c.pre, "fluffle_")
        o = c.ex.obj(x, FF)
        return [c.ex.field(o, n) for n in SHARED + ["lock"]] + [c.ex.field(c.this, n) for n in extra]

    def ready_pre(c):
        f = c.fld(c.pre, "fiver_")
        return fl_pre(c) + [("a shard is being built", f > 0), ("open, not voted", phase(c, c.pre, f) == 1), ("not built", z3.Not(fiv(c, c.pre, "built_"))), ("appended", z3.And(APPENDED(f) >= 0, APPENDED(f) <= 1 << 58))]

    def ready_post(c):
        f = c.fld(c.pre, "fiver_")
        out = [("lock is free", ff(c, c.post, "lock") == 0), ("the shard's vote", phase(c, c.post, f) == z3.If(r(c), 2, 3)), ("the shard stays", c.fld(c.post, "fiver_") == f)]
        ss = [(a, b) for a, b in sections(c)]
        hit = []
        for a, b in ss:
            wa, wb = ff(c, a, "warrens"), ff(c, b, "warrens")
            hit.append(z3.And(
                fiv(c, b, "where_", f) == ff(c, a, "address"), ff(c, b, "address") == ff(c, a, "address") + APPENDED(f),
                fiv(c, b, "sequence_start_", f) == ff(c, a, "sequence"), fiv(c, b, "sequence_end_", f) == ff(c, a, "sequence"), ff(c, b, "sequence") == ff(c, a, "sequence") + 1,
                wb.d["len"] == wa.d["len"] + 1, z3.Select(wb.d["data"], wa.d["len"]) == f, same_vec(wa, wb), unchanged(c, a, b, ("address", "sequence", "warrens"))))
        out.append(("one critical section takes the next addresses and the next sequence number and enters the shard after all others", z3.Or(hit) if hit else z3.BoolVal(False)))
        out.append(("no other changes the shared state", z3.And([z3.Or(h, unchanged(c, a, b)) for h, (a, b) in zip(hit, ss)])))
        return out

    def fmods(c, *names):
        f = c.fld(c.pre, "fiver_")
        o = c.ex.obj(f, FI)
        return [c.ex.field(o, n) for n in names] + [phase_loc(c, f)]
    ready = Contract(BW + "::ready_", ["error"], pre=ready_pre, post=ready_post, ret=BOOL,
                     mods=lambda c: mods(c) + fmods(c, "where_", "sequence_start_", "sequence_end_"), opts=base)

    def commit_pre(c):
        f = c.fld(c.pre, "fiver_")
        return fl_pre(c) + [("a shard is being built", f > 0), ("voted to commit", phase(c, c.pre, f) == 2)]

    def commit_post(c):
        f = c.fld(c.pre, "fiver_")
        hit = []
        for a, b in sections(c):
            hit.append(z3.And(phase(c, a, f) == 2, phase(c, b, f) == 0, ff(c, b, "cache") != ff(c, a, "cache"), ff(c, b, "cache") > 0, unchanged(c, a, b, ("cache",))))
        return [("lock is free", ff(c, c.post, "lock") == 0), ("the shard is let go", z3.And(c.fld(c.post, "fiver_") == 0, c.fld(c.post, "appender_") == 0, c.fld(c.post, "annotator_") == 0)),
                ("the shard becomes visible and the list cache is replaced in one critical section", z3.Or(hit) if hit else z3.BoolVal(False))]
    commit = Contract(BW + "::commit_", [], pre=commit_pre, post=commit_post, mods=lambda c: mods(c, "fiver_", "appender_", "annotator_") + fmods(c), opts=base)

    def abort_pre(c):
        f = c.fld(c.pre, "fiver_")
        return fl_pre(c) + [("a shard is being built", f > 0), ("in a transaction", phase(c, c.pre, f) >= 1)]

    def abort_post(c):
        f = c.fld(c.pre, "fiver_")
        hit = [z3.And(phase(c, b, f) == 0, unchanged(c, a, b)) for a, b in sections(c)]
        return [("lock is free", ff(c, c.post, "lock") == 0), ("the shard is let go", z3.And(c.fld(c.post, "fiver_") == 0, c.fld(c.post, "appender_") == 0, c.fld(c.post, "annotator_") == 0)),
                ("the shard is abandoned in a critical section that changes nothing else", z3.Or(hit) if hit else z3.BoolVal(False))]
    abort = Contract(BW + "::abort_", [], pre=abort_pre, post=abort_post, mods=lambda c: mods(c, "fiver_", "appender_", "annotator_") + fmods(c), opts=base)

    def tr_pre(c):
        return fl_pre(c)

    def tr_post(c):
        f = c.fld(c.post, "fiver_")
        return [("lock is free", ff(c, c.post, "lock") == 0), ("open: a new shard, open", z3.Implies(r(c), z3.And(f > 0, phase(c, c.post, f) == 1, c.fld(c.post, "appender_") > 0, c.fld(c.post, "annotator_") > 0))),
                ("refused: no shard", z3.Implies(z3.Not(r(c)), f == 0)),
                ("shared state untouched", z3.And([unchanged(c, a, b) for a, b in sections(c)] or [z3.BoolVal(True)]))]
    tr = Contract(BW + "::transaction_", ["error"], pre=tr_pre, post=tr_post, ret=BOOL, mods=lambda c: mods(c, "fiver_", "appender_", "annotator_"), opts=base)
    return [tr, ready, commit, abort]


def bw_contracts():
    out = {c.q: c for c in protocol(False)}

    def reloc_post(c):
        return [("", c.ret == c["where"] + APPENDED(c.this.root[2])), ("", c.ex.read(c.ex.field(c.this, "where_")) == c["where"])]
    out[FI + "::relocate"] = Contract(FI + "::relocate", ["where"], pre=lambda c: [("not built", z3.Not(c.fld(c.pre, "built_")))], post=reloc_post,
                                      mods=lambda c: [c.ex.field(c.this, "where_")], ret=("int", 64, True))
    out[FI + "::set_sequence"] = set_seq()
    out[BW + "::try_merge"] = Contract(BW + "::try_merge", [], pre=lambda c: [("lock is free", ff(c, c.pre, "lock") == 0)], assumed=True)
    P = ("ptr", ("cls", "cottontail::Fiver"))

    def fresh_obj(cls):
        def f(c):
            ex = c.ex
            ok = z3.Bool(ex.name("made"))
            x = ex.st.alloc
            ex.st.alloc = ex.st.alloc + 1
            return z3.If(ok, x, z3.IntVal(0))
        return f
    out[FI + "::make"] = Contract(FI + "::make", ["w", "f", "t", "e", "p", "v", "x"], ret=fresh_obj(FI), post=lambda c: [("", z3.Implies(c.ret > 0, phase(c, c.post, c.ret) == 0))])
    for k in ("Annotator", "Appender"):
        q = "cottontail::Bigwig%s::make" % k
        out[q] = Contract(q, ["fiver", "error"], ret=fresh_obj(q))
    W = "cottontail::Warren"
    out[W + "::start"] = Contract(W + "::start", [], mods=lambda c: [c.ex.field(c.ex.obj(c.this.root[2], W), n) for n in ("started_", "idx_", "txt_")], assumed=True)
    return out


# ------------------------------------------------------------------ Fiver
FA = "cottontail::FiverAppender"
STAGING = (2**63 - 1) // 2


def set_seq():
    o = lambda c, st, n: c.ex.read(c.ex.field(c.this, n), st, facts=False)
    return Contract(FI + "::set_sequence", ["number"], post=lambda c: [("start", o(c, c.post, "sequence_start_") == c["number"]), ("end", o(c, c.post, "sequence_end_") == c["number"])],
                    mods=lambda c: [c.ex.field(c.this, n) for n in ("sequence_start_", "sequence_end_")])


def get_seq():
    return Contract(FI + "::get_sequence", ["start", "end"], post=lambda c: [("start", c.at(c.post, "start") == c.fld(c.pre, "sequence_start_")), ("end", c.at(c.post, "end") == c.fld(c.pre, "sequence_end_"))],
                    mods=lambda c: [c.loc("start"), c.loc("end")])


def relocate():
    def app(c, st):
        return c.ex.read(c.ex.field(c.ex.obj(c.fld(st, "appender_"), FA), "address_"), st, facts=False) - STAGING

    def pre(c):
        return [("not built", z3.Not(c.fld(c.pre, "built_"))), ("its appender is there", c.fld(c.pre, "appender_") > 0), ("appended so far", z3.And(app(c, c.pre) >= 0, app(c, c.pre) < 1 << 58)),
                ("where", z3.And(c["where"] >= 0, c["where"] < 1 << 61))]
    return Contract(FI + "::relocate", ["where"], pre=pre, post=lambda c: [("the next free address", c.ret == c["where"] + app(c, c.pre)), ("remembered", c.fld(c.post, "where_") == c["where"])],
                    mods=lambda c: [c.ex.field(c.this, "where_")], ret=("int", 64, True))


def fiver_hooks():
    r = lambda c: c.ex.as_bool(c.ret)
    ap = lambda c, st: c.fld(st, "appender_")
    an = lambda c, st: c.fld(st, "annotator_")
    opts = {"mutex": True}
    parts = lambda c: [("its parts are there", z3.And(ap(c, c.pre) > 0, an(c, c.pre) > 0, ap(c, c.pre) != an(c, c.pre), ap(c, c.pre) != c.this.root[2], an(c, c.pre) != c.this.root[2]))]

    def ph(c, st):
        return phase(c, st, ap(c, c.pre)), phase(c, st, an(c, c.pre))

    def tr_post(c):
        a, b = ph(c, c.post)
        return [("open exactly if both parts are", z3.If(r(c), z3.And(a == 1, b == 1), z3.And(a == 0, b == 0))), ("a built shard refuses", z3.Implies(c.fld(c.pre, "built_"), z3.Not(r(c))))]
    tr = Contract(FI + "::transaction_", ["error"], pre=lambda c: parts(c) + [("idle", z3.And(ph(c, c.pre)[0] == 0, ph(c, c.pre)[1] == 0))], post=tr_post, ret=BOOL,
                  mods=lambda c: [phase_loc(c, ap(c, c.pre)), phase_loc(c, an(c, c.pre))], opts=opts)

    return [set_seq(), get_seq(), relocate(), tr]


def fiver_contracts():
    return {c.q: c for c in protocol(False)}


# ------------------------------------------------------------------ snapshots
CNT, CNTL = z3.Function("visible.before", INT, INT), z3.Function("visible.before'", INT, INT)
OW, WA = "cottontail::Owsla", "cottontail::Warren"
k_, j_ = z3.Ints("k!q j!q")
M_W = z3.Function("mark.shard", INT, z3.BoolSort())


def visible(ex, st, w):
    """a shard readers see: committed (or merged, or loaded), not one being prepared or abandoned"""
    nm = ex.read(ex.field(ex.obj(w, WA), "name_"), st, facts=False)
    eq = lambda s: z3.And([nm.d["len"] == len(s)] + [z3.Select(nm.d["data"], i) == ord(ch) for i, ch in enumerate(s)])
    return z3.And(w != 0, z3.Or(eq("hazel"), eq("fiver")))


VIS = z3.Function("visible", INT, z3.BoolSort())


def on_lock(ex, st, x):
    """at the (one) lock: number the visible shards"""
    if "numbered" in st.ghost:
        return []
    st.ghost["numbered"] = True
    w = ex.read(ex.field(ex.obj(x, FF), "warrens"), st, facts=False)
    at = lambda a: z3.Select(w.d["data"], a)
    from .posting import unroll
    snap = st.clone()
    return [("limit: definition", f) for f in unroll(CNT, CNTL, z3.IntVal(0), z3.IntVal(0), lambda a, prev: prev + z3.If(VIS(at(a)), z3.IntVal(1), z3.IntVal(0)))] + [
        ("limit: definition", z3.ForAll([k_], VIS(k_) == visible(ex, snap, k_), patterns=[VIS(k_)])),
        ("limit: objects", z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < w.d["len"]), z3.And(at(k_) >= 0, at(k_) < st.alloc)), patterns=[at(k_)]))]


SNAP_GUARD = {(FF, "lock"): {"fields": SHARED, "inv": lambda ex, st, x: shared_inv(ex, st, x) + on_lock(ex, st, x)}}


def snapshots():
    opts = {"mutex": True, "guarded": SNAP_GUARD}
    W_ = lambda c, st: c.fld(st, "warrens_")

    def pre(c):
        x = c.fld(c.pre, "fluffle_")
        return [("shared state is there", x > 0), ("its lock is free", ff(c, c.pre, "lock") == 0), ("own lock free", c.fld(c.pre, "warrens_lock_") == 0),
                ("a snapshot has its cache", z3.Implies(c.fld(c.pre, "warrens_valid_"), c.fld(c.pre, "cache_") > 0)),
                ("featurizer", c.ex.read(c.ex.field(c.ex.obj(c.this.root[2], WA), "featurizer_"), c.pre, facts=False) > 0)]

    def post(c):
        v0 = c.fld(c.pre, "warrens_valid_")
        out = [("lock is free", z3.And(ff(c, c.post, "lock") == 0, c.fld(c.post, "warrens_lock_") == 0)),
               ("a snapshot already held stays", z3.Implies(v0, z3.And(W_(c, c.post).d["len"] == W_(c, c.pre).d["len"], same_vec(W_(c, c.pre), W_(c, c.post)), c.fld(c.post, "cache_") == c.fld(c.pre, "cache_")))),
               ("it holds one afterwards", z3.And(c.fld(c.post, "warrens_valid_"), c.fld(c.post, "cache_") > 0))]
        ss = sections(c)
        out.append(("a new one is taken in one critical section", z3.Or(v0, z3.BoolVal(len(ss) == 1))))
        for a, b in ss:
            wa = ff(c, a, "warrens")
            ws = W_(c, c.post)
            out += [("new: " + n, z3.Or(v0, f)) for n, f in [
                ("as many shards as are visible", ws.d["len"] == CNT(wa.d["len"])),
                ("every visible shard of that moment, in order", z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < wa.d["len"], VIS(z3.Select(wa.d["data"], k_))), z3.Select(ws.d["data"], CNT(k_)) == z3.Select(wa.d["data"], k_)), patterns=[CNT(k_)])),
                ("the list cache of that moment", c.fld(c.post, "cache_") == ff(c, b, "cache")),
                ("which is replaced only if there is none", z3.Or(ff(c, b, "cache") == ff(c, a, "cache"), ff(c, a, "cache") == 0)),
                ("shared state otherwise untouched", unchanged(c, a, b, ("cache",)))]]
        return out

    def inv(c, lc):
        ex = lc.ex
        x = c.fld(c.pre, "fluffle_")
        out = []
        wa = lambda st: ex.read(ex.field(ex.obj(x, FF), "warrens"), st, facts=False)
        at = ex.st.ghost.get("at")
        for nm, gi in lc.ints():
            out += [("visible so far (%s)" % nm, lambda st, gi=gi: W_(c, st).d["len"] == CNT(gi(st))),
                    ("%s in range" % nm, lambda st, gi=gi: z3.And(gi(st) >= 0, gi(st) <= wa(st).d["len"])),
                    ("counts below %s" % nm, lambda st, gi=gi: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ <= gi(st)), z3.And(CNT(k_) >= 0, CNT(k_) <= k_, z3.Implies(z3.And(k_ < gi(st), VIS(z3.Select(wa(st).d["data"], k_))), CNT(k_) < CNT(gi(st))))), patterns=[CNT(k_)])),
                    ("shards below %s" % nm, lambda st, gi=gi: z3.ForAll([k_], z3.Implies(z3.And(k_ >= 0, k_ < gi(st), VIS(z3.Select(wa(st).d["data"], k_))),
                                                                                          z3.Select(W_(c, st).d["data"], CNT(k_)) == z3.Select(wa(st).d["data"], k_)), patterns=[CNT(k_)]))]
        return out

    def mods(c):
        x = c.fld(c.pre, "fluffle_")
        o = c.ex.obj(x, FF)
        w = c.ex.obj(c.this.root[2], WA)
        return [c.ex.field(o, n) for n in SHARED + ["lock"]] + [c.ex.field(c.this, n) for n in ("warrens_", "warrens_valid_", "cache_", "warrens_lock_")] + [c.ex.field(w, n) for n in ("idx_", "txt_")]
    start = Contract(BW + "::start_", [], pre=pre, post=post, mods=mods, inv=inv, opts=opts)

    def end_post(c):
        w = c.ex.obj(c.this.root[2], WA)
        g = lambda n: c.ex.read(c.ex.field(w, n), c.post, facts=False)
        return [("lock is free", c.fld(c.post, "warrens_lock_") == 0), ("the snapshot is dropped", z3.And(z3.Not(c.fld(c.post, "warrens_valid_")), c.fld(c.post, "cache_") == 0, W_(c, c.post).d["len"] == 0)),
                ("nothing to read from", z3.And(g("idx_") == 0, g("txt_") == 0))]
    end = Contract(BW + "::end_", [], pre=pre, post=end_post, mods=mods, opts=opts)
    return [start, end]


def snap_contracts():
    def fresh(c):
        x = c.ex.st.alloc
        c.ex.st.alloc = c.ex.st.alloc + 1
        return x

    def given(c):
        """the snapshot handed on is the object's"""
        o = c.ex.cx
        v, w = c.at(c.ex.st, "warrens"), o.fld(c.ex.st, "warrens_")
        return [("given the object's snapshot", z3.And(v.d["len"] == w.d["len"], same_vec(w, v)))]

    def given_cache(c):
        return given(c) + [("given the snapshot's cache", c["cache"] == c.ex.cx.fld(c.ex.st, "cache_"))]
    out = {}
    q = "cottontail::BigwigIdx::make"
    out[q] = Contract(q, ["warrens", "cache", "factory", "feature"], pre=given_cache, ret=fresh)
    q = "cottontail::BigwigTxt::make"
    out[q] = Contract(q, ["warrens"], pre=given, ret=fresh)
    q = "cottontail::Txt::wrap"
    out[q] = Contract(q, ["recipe", "txt", "error"], ret=lambda c: c["txt"] if z3.is_expr(c["txt"]) else fresh(c), assumed=True)
    q = "cottontail::Featurizer::featurize_"
    out[q] = Contract(q, ["key", "length"], ret=("int", 64, True), assumed=True)
    return out
