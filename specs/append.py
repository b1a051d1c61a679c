"""Contracts of what a transaction records: the annotation log, the appended text."""
import z3
from cov.ex import Contract, Loc
from cov.types_ import Rec, INT, tmap
from cov import stl
from cov.smt import forall
from .warren import CM, FI, FA, STAGING, CNT, BOOL
from .hoppers import sig_n

AN = "cottontail::Annotation"
FAN = "cottontail::FiverAnnotator"
ANR = "cottontail::Annotator"
LOGT = ("vec", ("cls", AN))
i, j, k, s, t, x = z3.Ints("i!q j!q k!q s!q t!q x!q")
M = stl._mark("entry")
MT = stl._mark("token")
MX = stl._mark("address")
FE = z3.Function("feature.of", INT, z3.ArraySort(INT, INT), INT)
BIG = 1 << 40


def recs(v, n):
    """new log v and old log n agree on the old entries"""
    return z3.And([z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n.d["len"]), z3.Select(a, i) == z3.Select(b, i)), patterns=[z3.Select(a, i), z3.Select(b, i)])
                   for a, b in zip(stl.leaves(v.d["data"]), stl.leaves(n.d["data"]))])


def entry(v, a, f, p, q, val):
    g = lambda n: z3.Select(v.d["data"].d[n], a)
    return z3.And(g("feature") == f, g("p") == p, g("q") == q, g("v") == val)


# ------------------------------------------------------------ the annotation log
def shared(ex, st, o, cls, field, t):
    """value a shared_ptr<container> field designates"""
    x_ = ex.read(ex.field(ex.obj(o, cls), field), st, facts=False)
    return ex.read(mloc(x_, t), st, facts=False)


def mloc(x_, t):
    return Loc(("mem", str(t), x_, t), (("i", z3.IntVal(0)),), t)


def annotator():
    T = LOGT
    lg = lambda c, st: shared(c.ex, st, c.this.root[2], FAN, "annotations_", T)
    loc = lambda c: mloc(c.fld(c.pre, "annotations_"), T)

    def pre(c):
        return [("in a transaction", c.fld(c.pre, "annotations_") > 0), ("room", lg(c, c.pre).d["len"] < BIG)]

    def con(nm, args, f, p, q, v):
        def post(c):
            a, b = lg(c, c.pre), lg(c, c.post)
            return [("accepted", c.ex.as_bool(c.ret)), ("one more entry", b.d["len"] == a.d["len"] + 1), ("others kept", recs(b, a)),
                    ("the entry", entry(b, a.d["len"], f(c), p(c), q(c), v(c)))]
        return Contract(FAN + "::" + nm, args, pre=pre, post=post, ret=BOOL, mods=lambda c: [loc(c)], sig=sig_n(len(args)))
    g = lambda n: lambda c: c[n]
    z = lambda c: z3.IntVal(0)

    def post_tr(c):
        return [("accepted exactly while its list is there", c.ex.as_bool(c.ret) == (c.fld(c.pre, "annotations_") != 0))]
    tr = Contract(FAN + "::transaction_", ["error"], post=post_tr, ret=BOOL)
    ab = Contract(FAN + "::abort_", [], pre=pre, post=lambda c: [("nothing left", lg(c, c.post).d["len"] == 0)], mods=lambda c: [loc(c)])
    cm = Contract(FAN + "::commit_", [], post=lambda c: [("no further entries", c.fld(c.post, "annotations_") == 0)], mods=lambda c: [c.ex.field(c.this, "annotations_")])
    return [con("annotate_", ["feature", "p", "q", "v", "error"], g("feature"), g("p"), g("q"), g("v")), con("erase_", ["p", "q", "error"], z, g("p"), g("q"), z), tr, ab, cm]


# ------------------------------------------------------------ appending
def glog(ex, st, o):
    """ghost: everything an annotator was given"""
    return ex.read(glog_loc(ex, o, st), st, facts=False)


def glog_loc(ex, o, st=None):
    key = (ANR, "$log")
    if key not in ex.heap_init:
        from cov.ex import tmap_named, arr_of
        ex.heap_init[key] = tmap_named(lambda p, so: z3.Const("log" + p, arr_of(so)), ex.shape(LOGT))
    for q in (st or ex.st, ex.st):
        q.heap.setdefault(key, ex.heap_init[key])
    return Loc(("heap", ANR, "$log", o), (), LOGT)


TK = ("vec", ("cls", "cottontail::Token"))


def facts_tokens(c, tk, textlen):
    ad, of = tk.d["data"].d["address"], tk.d["data"].d["offset"]
    return [("", z3.And(tk.d["len"] >= 0, tk.d["len"] <= BIG)),
            ("", forall([i], z3.Implies(z3.And(i >= 0, i < tk.d["len"]), z3.And(z3.Select(ad, i) >= 0, z3.Select(ad, i) <= BIG, z3.Select(of, i) >= 0, z3.Select(of, i) < textlen)), [z3.Select(ad, i), z3.Select(of, i)])),
            ("", z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < tk.d["len"]), z3.Select(ad, i) <= z3.Select(ad, j)), patterns=[z3.MultiPattern(z3.Select(ad, i), z3.Select(ad, j))])),
            ("", z3.Implies(tk.d["len"] > 0, z3.Select(ad, 0) == 0))]


def callees():
    def ann_post(c):
        a, b = glog(c.ex, c.pre, c.this.root[2]), glog(c.ex, c.post, c.this.root[2])
        r = c.ex.as_bool(c.ret)
        return [("", z3.If(r, z3.And(b.d["len"] == a.d["len"] + 1, recs(b, a), entry(b, a.d["len"], c["feature"], c["p"], c["q"], c["v"])),
                           z3.And(b.d["len"] == a.d["len"], recs(b, a))))]
    ann = Contract(ANR + "::annotate_", ["feature", "p", "q", "v", "error"], ret=BOOL, post=ann_post, mods=lambda c: [glog_loc(c.ex, c.this.root[2])], sig=sig_n(5))

    def tok_ret(c):
        v = c.ex.fresh(TK, "tokens")
        c.ex.st.ghost["tokens"] = v
        return v

    def tok_post(c):
        txt = c.at(c.pre, "text")
        return facts_tokens(c, c.ret, txt.d["len"])
    tok = Contract("cottontail::Tokenizer::tokenize", ["featurizer", "text"], ret=tok_ret, post=tok_post, sig=sig_n(2), assumed=True)

    def feat_post(c):
        v = c.at(c.pre, "key")
        return [("", c.ret == FE(v.d["len"], v.d["data"])), ("", c.ret > 0)]
    fe = Contract("cottontail::Featurizer::featurize", ["key"], ret=("int", 64, True), post=feat_post, sig=sig_n(1), assumed=True)
    return {ann.q: [ann], tok.q: [tok], fe.q: [fe]}


def tag(name):
    return FE(z3.Const("const.%s.len" % name, INT), z3.Const("const.%s.data" % name, z3.ArraySort(INT, INT)))


STR = ("str",)


def appender():
    fld = lambda c, st, n: c.ex.read(c.ex.field(c.this, n), st, facts=False)
    txt = lambda c, st: c.ex.read(mloc(c.fld(c.pre, "text_"), STR), st, facts=False)
    lg = lambda c, st: glog(c.ex, st, c.fld(c.pre, "annotator_"))
    MARKS = lambda: z3.And([z3.ForAll([i], m(i), patterns=[m(i)]) for m in (M, MT, MX)])

    def inv(c, st):
        A, C, F, O = (fld(c, st, n) for n in ("address_", "chunk_address_", "first_address_", "chunk_offset_"))
        return [("its addresses are staged ones", z3.And(F == STAGING, F <= C, C <= A, A <= STAGING + (1 << 50))), ("chunk offset inside the text", z3.And(O >= 0, O <= txt(c, st).d["len"]))]

    def pre(c):
        T = c.fld(c.pre, "text_")
        return [("its parts are there", z3.And(T > 0, c.fld(c.pre, "annotator_") > 0, c.fld(c.pre, "tokenizer_") > 0, c.fld(c.pre, "featurizer_") > 0)),
                ("room", z3.And(txt(c, c.pre).d["len"] <= 1 << 48, lg(c, c.pre).d["len"] <= 1 << 48, lg(c, c.pre).d["len"] >= 0, fld(c, c.pre, "address_") <= STAGING + (1 << 48)))] + inv(c, c.pre)

    def pre_append(c):
        v = c.at(c.pre, "text")
        return pre(c) + [("room for the text", z3.And(v.d["len"] >= 0, v.d["len"] <= 1 << 40)), ("marks", MARKS())]
    CH = tag("text_chunk_tag")

    def is_token(c, b, e, n, st=None):
        tk = c.ex.st.ghost["tokens"]
        d = tk.d["data"].d
        A = fld(c, c.pre, "address_")
        return z3.Exists([j], z3.And(j >= 0, j < n, z3.Select(d["feature"], j) > 0, entry(b, e, z3.Select(d["feature"], j), A + z3.Select(d["address"], j), A + z3.Select(d["address"], j), 0)), patterns=[z3.Select(d["address"], j)])

    def parts(c, st, n, hi):
        """the log after the first n tokens; chunks are cut up to hi"""
        tk = c.ex.st.ghost["tokens"]
        d = tk.d["data"].d
        a, b = lg(c, c.pre), lg(c, st)
        B = b.d["data"].d
        A, C0, O0 = (fld(c, c.pre, m) for m in ("address_", "chunk_address_", "chunk_offset_"))
        l0, l1 = a.d["len"], b.d["len"]
        base = txt(c, c.pre).d["len"]
        e = lambda f: z3.Select(B[f], s)
        first = lambda p, v: z3.Or(z3.And(p == C0, v == O0), z3.Exists([j], z3.And(j >= 0, j < n, p == A + z3.Select(d["address"], j), v == base + z3.Select(d["offset"], j)), patterns=[z3.Select(d["address"], j)]))
        return [
            ("old entries kept", z3.And(l1 >= l0, recs(b, a))),
            ("every token is annotated at its address", z3.ForAll([i], z3.Implies(z3.And(MT(i), i >= 0, i < n, z3.Select(d["feature"], i) > 0), z3.Exists([s], z3.And(s >= l0, s < l1, entry(
                b, s, z3.Select(d["feature"], i), A + z3.Select(d["address"], i), A + z3.Select(d["address"], i), 0)), patterns=[z3.Select(B["feature"], s)])), patterns=[MT(i)])),
            ("nothing else but text chunks", forall([s], z3.Implies(z3.And(M(s), s >= l0, s < l1), z3.Or(
                z3.And(e("feature") == CH, e("p") >= C0, e("p") <= e("q"), e("q") < hi, first(e("p"), e("v"))), is_token(c, b, s, n))), [M(s)])),
            ("chunks cover what is cut", z3.ForAll([x], z3.Implies(z3.And(MX(x), x >= C0, x < hi), z3.Exists([s], z3.And(s >= l0, s < l1, e("feature") == CH, e("p") <= x, x <= e("q")), patterns=[z3.Select(B["feature"], s)])), patterns=[MX(x)])),
            ("open chunk starts at a token", first(hi, fld(c, st, "chunk_offset_"))),
        ]

    def app_post(c):
        r = c.ex.as_bool(c.ret)
        v = c.at(c.pre, "text")
        A0, A1 = fld(c, c.pre, "address_"), fld(c, c.post, "address_")
        t0, t1 = txt(c, c.pre), txt(c, c.post)
        n = v.d["len"]
        tk = c.ex.st.ghost.get("tokens")
        p, q = c.at(c.post, "p"), c.at(c.post, "q")
        last = z3.Select(v.d["data"], n - 1)
        sep = z3.Or(last == 32, last == 9, last == 10)
        out = [("text goes on unchanged", z3.And(t1.d["len"] == t0.d["len"] + z3.If(n == 0, 0, n + z3.If(sep, 0, 1)),
                                                 forall([i], z3.Implies(z3.And(i >= 0, i < t0.d["len"]), z3.Select(t1.d["data"], i) == z3.Select(t0.d["data"], i)), [z3.Select(t1.d["data"], i)]))),
               ("what is appended follows", forall([i], z3.Implies(z3.And(i >= 0, i < n), z3.Select(t1.d["data"], t0.d["len"] + i) == z3.Select(v.d["data"], i)), [z3.Select(v.d["data"], i)])),
               ("and ends in a separator", z3.Implies(n > 0, z3.Or([z3.Select(t1.d["data"], t1.d["len"] - 1) == ch for ch in (32, 9, 10)])))]
        if tk is None:
            return out + [("no text: an empty interval at the next address", z3.And(r, p == A0 + 1, q == A0, A1 == A0))]
        tn = tk.d["len"]
        la = z3.Select(tk.d["data"].d["address"], tn - 1)
        out += [("no tokens: an empty interval at the next address", z3.Implies(tn == 0, z3.And(r, p == A0 + 1, q == A0, A1 == A0))),
                ("the interval of its tokens", z3.Implies(z3.And(r, tn > 0), z3.And(p == A0, q == A0 + la, A1 == q + 1)))]
        out += [(nm, z3.Implies(r, f)) for nm, f in inv(c, c.post)]
        out += [(nm, z3.Implies(r, f)) for nm, f in parts(c, c.post, tn, fld(c, c.post, "chunk_address_"))]
        return out

    def app_inv(c, lc):
        ex = lc.ex
        out = []
        tk = ex.st.ghost.get("tokens")
        if tk is None:
            return out
        d = tk.d["data"].d
        A = fld(c, c.pre, "address_")
        toks = [(nm, l) for nm, l in lc.cells() if l.t == TK]
        C = lambda st: fld(c, st, "chunk_address_")
        for nm, g in lc.ints():
            if not lc.modified(nm):
                continue
            out.append(("%s in range" % nm, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= tk.d["len"])))
            for m in range(5):
                out.append(("log %d below %s" % (m, nm), lambda st, g=g, m=m: parts(c, st, g(st), C(st))[m][1]))
            out.append(("entries so far %s" % nm, lambda st, g=g: lg(c, st).d["len"] <= lg(c, c.pre).d["len"] + 2 * g(st)))
            out.append(("chunk reached by %s" % nm, lambda st, g=g: z3.Or(C(st) == fld(c, c.pre, "chunk_address_"), z3.And(g(st) > 0, C(st) <= A + z3.Select(d["address"], g(st) - 1)))))
            for tn, l in toks:
                cur = lambda st, l=l, f="address": z3.Select(ex.read(l, st, facts=False).d["data"].d[f], i)
                out.append(("moved below %s" % nm, lambda st, g=g, cur=cur: forall([i], z3.Implies(z3.And(i >= 0, i < g(st)), cur(st) == A + z3.Select(d["address"], i)), [cur(st)])))
                out.append(("not moved from %s" % nm, lambda st, g=g, cur=cur: forall([i], z3.Implies(z3.And(i >= g(st), i < tk.d["len"]), cur(st) == z3.Select(d["address"], i)), [cur(st)])))
        for tn, l in toks:
            out.append(("tokens' number", lambda st, l=l: ex.read(l, st, facts=False).d["len"] == tk.d["len"]))
            for f in ("feature", "offset", "length"):
                out.append(("tokens' " + f, lambda st, l=l, f=f: ex.read(l, st, facts=False).d["data"].d[f] == d[f]))
        out.append(("chunk starts in what is appended", lambda st: z3.And(C(st) >= fld(c, c.pre, "chunk_address_"), C(st) <= A + z3.If(tk.d["len"] > 0, z3.Select(d["address"], tk.d["len"] - 1), 0))))
        out.append(("chunk offset", lambda st: z3.And(fld(c, st, "chunk_offset_") >= 0, fld(c, st, "chunk_offset_") <= txt(c, c.pre).d["len"] + c.at(c.pre, "text").d["len"])))
        return out

    def mods(c):
        return [c.ex.field(c.this, n) for n in ("address_", "chunk_address_", "chunk_offset_")] + [mloc(c.fld(c.pre, "text_"), STR), glog_loc(c.ex, c.fld(c.pre, "annotator_"))]
    app = Contract(FA + "::append_", ["text", "p", "q", "error"], pre=pre_append, post=app_post, inv=app_inv, ret=BOOL, mods=lambda c: mods(c) + [c.loc("p"), c.loc("q")])

    def ready_post(c):
        r = c.ex.as_bool(c.ret)
        A, C, O = (fld(c, c.pre, n) for n in ("address_", "chunk_address_", "chunk_offset_"))
        a, b = lg(c, c.pre), lg(c, c.post)
        t0, t1 = txt(c, c.pre), txt(c, c.post)
        l0 = a.d["len"]
        n1 = z3.If(A > STAGING, 1, 0)
        n2 = z3.If(A > C, 1, 0)
        return [("old entries kept", recs(b, a)), ("one entry for the transaction, one for the open chunk", z3.Implies(r, b.d["len"] == l0 + n1 + n2)),
                ("the transaction's interval", z3.Implies(z3.And(r, n1 == 1), entry(b, l0, tag("transaction_tag"), STAGING, A - 1, 0))),
                ("the open chunk with its offset", z3.Implies(z3.And(r, n2 == 1), entry(b, l0 + n1, CH, C, A - 1, O))),
                ("text ends a line", z3.Implies(t1.d["len"] > 0, z3.Select(t1.d["data"], t1.d["len"] - 1) == 10)),
                ("text otherwise unchanged", z3.And(t1.d["len"] >= t0.d["len"], t1.d["len"] <= t0.d["len"] + 1, forall([i], z3.Implies(z3.And(i >= 0, i < t0.d["len"]), z3.Select(t1.d["data"], i) == z3.Select(t0.d["data"], i)), [z3.Select(t1.d["data"], i)])))]
    ready = Contract(FA + "::ready_", ["error"], pre=pre, post=ready_post, ret=BOOL, mods=lambda c: mods(c)[3:])
    return [app, ready]


# ------------------------------------------------------------ a shard becomes ready
SPO, SPF = "cottontail::SimplePosting", "cottontail::SimplePostingFactory"
FROM, TO = z3.Function("made.from", INT, INT), z3.Function("made.to", INT, INT)
MAPT = ("map", ("int", 64, True), ("ptr", ("cls", SPO)))


def run_order(d, a, b):
    """records a..b-1 are in the order lists are built from"""
    f, p, q = d["feature"], d["p"], d["q"]
    S = z3.Select
    return z3.ForAll([i, j], z3.Implies(z3.And(i >= a, i < j, j < b), z3.And(S(f, i) <= S(f, j), z3.Implies(S(f, i) == S(f, j), z3.And(
        S(q, i) <= S(q, j), z3.Implies(S(q, i) == S(q, j), S(p, i) >= S(p, j)))))), patterns=[z3.MultiPattern(S(f, i), S(f, j))])


def shard_callees():
    def log(c, st):
        # the shard under construction is the one whose ready step runs
        return shared(c.ex, st, c.ex.cx.this.root[2], FI, "annotations_", LOGT)

    def logloc(c):
        x_ = c.ex.read(c.ex.field(c.ex.obj(c.ex.cx.this.root[2], FI), "annotations_"), c.pre, facts=False)
        return mloc(x_, LOGT)

    def rdy_post(c):
        a, b = log(c, c.pre), log(c, c.post)
        B = b.d["data"].d
        rng_ = lambda f: z3.And(z3.Select(B[f], i) >= -BIGA, z3.Select(B[f], i) < BIGA + STAGING)
        return [("", z3.And(b.d["len"] >= a.d["len"], b.d["len"] <= a.d["len"] + 2, recs(b, a))), ("", forall([i], z3.Implies(z3.And(i >= 0, i < b.d["len"]), z3.And(rng_("p"), rng_("q"))), [z3.Select(B["p"], i), z3.Select(B["q"], i)]))]
    rdy = Contract(CM + "::ready", ["error"], ret=BOOL, post=rdy_post, mods=lambda c: [logloc(c)], assumed=True)

    def fresh_ref(c):
        r = c.ex.st.alloc
        c.ex.st.alloc = c.ex.st.alloc + 1
        return r

    def pfa_pre(c):
        it, e = c.at(c.pre, "start"), c.at(c.pre, "end")
        d = c.ex.read(it.loc, c.pre, facts=False).d
        return [("records in order", z3.And(it.idx >= 0, it.idx < e.idx, e.idx <= d["len"], run_order(d["data"].d, it.idx, e.idx)))]

    def pfa_post(c):
        it, nt, e = c.at(c.pre, "start"), c.at(c.post, "start"), c.at(c.pre, "end")
        f = c.ex.read(it.loc, c.pre, facts=False).d["data"].d["feature"]
        S = z3.Select
        fo = c.ex.read(c.ex.field(c.ex.obj(c.ret, SPO), "feature_"), c.post, facts=False)
        return [("", z3.And(nt.idx > it.idx, nt.idx <= e.idx, forall([k], z3.Implies(z3.And(k >= it.idx, k < nt.idx), S(f, k) == S(f, it.idx)), [S(f, k)]),
                            z3.Or(nt.idx == e.idx, S(f, nt.idx) != S(f, it.idx)))), ("", z3.And(fo == S(f, it.idx), FROM(c.ret) == it.idx, TO(c.ret) == nt.idx))]
    pfa = Contract(SPF + "::posting_from_annotations", ["start", "end"], ret=fresh_ref, pre=pfa_pre, post=pfa_post, mods=lambda c: [c.loc("start")])
    mk = Contract(SPF + "::make", ["a", "b"], ret=fresh_ref, assumed=True)
    pk = Contract(FI + "::pickle", ["error"], ret=BOOL, assumed=True, sig=sig_n(1))
    return {rdy.q: [rdy], pfa.q: [pfa], mk.q: [mk], pk.q: [pk]}


BIGA = 1 << 61


def shard_ready():
    fld = lambda c, st, n: c.ex.read(c.ex.field(c.this, n), st, facts=False)
    log = lambda c, st: c.ex.read(mloc(c.fld(c.pre, "annotations_"), LOGT), st, facts=False)
    idx = lambda c, st: c.ex.read(mloc(c.fld(c.pre, "index_"), MAPT), st, facts=False)

    def pre(c):
        l = log(c, c.pre)
        g = lambda n: fld(c, c.pre, n)
        B = l.d["data"].d
        rng_ = lambda f: z3.And(z3.Select(B[f], i) >= -BIGA, z3.Select(B[f], i) < BIGA + STAGING)
        return [("its parts are there", z3.And([g(n) > 0 for n in ("annotations_", "index_", "appender_", "annotator_")])), ("room", l.d["len"] < BIG), ("a free address", z3.And(g("where_") >= 0, g("where_") < BIGA)),
                ("addresses in range", forall([i], z3.Implies(z3.And(i >= 0, i < l.d["len"]), z3.And(rng_("p"), rng_("q"))), [z3.Select(B["p"], i), z3.Select(B["q"], i)])),
                ("marks", z3.And([z3.ForAll([i], m(i), patterns=[m(i)]) for m in (M, MX)]))]

    def moved(c, d, a):
        S = z3.Select
        off = STAGING - fld(c, c.pre, "where_")
        st_ = S(d["p"], a) >= STAGING
        return S(d["feature"], a), z3.If(st_, S(d["p"], a) - off, S(d["p"], a)), z3.If(st_, S(d["q"], a) - off, S(d["q"], a)), S(d["v"], a)

    def indexed(c, st, n):
        d = log(c, st).d["data"].d
        m = idx(c, st)
        S = z3.Select
        f = S(d["feature"], i)
        r = S(m.d["data"], f)
        return [("every record's feature has the list made of its run", forall([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(S(m.d["has"], f), r > 0, FROM(r) <= i, i < TO(r), TO(r) <= n)), [S(d["feature"], i)])),
                ("a list is made of one feature's records", z3.ForAll([x, i], z3.Implies(z3.And(MX(x), M(i), S(m.d["has"], x), i >= FROM(S(m.d["data"], x)), i < TO(S(m.d["data"], x))), S(d["feature"], i) == x), patterns=[z3.MultiPattern(MX(x), M(i))])),
                ("no other features", z3.ForAll([x], z3.Implies(z3.And(MX(x), S(m.d["has"], x)), z3.And(FROM(S(m.d["data"], x)) >= 0, FROM(S(m.d["data"], x)) < TO(S(m.d["data"], x)), TO(S(m.d["data"], x)) <= n)), patterns=[MX(x)]))]

    def post(c):
        r = c.ex.as_bool(c.ret)
        a, b = log(c, c.pre), log(c, c.post)
        A, B = a.d["data"].d, b.d["data"].d
        n = b.d["len"]
        now = c.post
        f, p, q, v = moved(c, A, i)
        out = [("a built shard refuses", z3.Implies(c.fld(c.pre, "built_"), z3.Not(r))),
               ("every record is there, moved to its final address", z3.Implies(r, forall([i], z3.Implies(z3.And(M(i), i >= 0, i < a.d["len"]), z3.Exists([j], z3.And(j >= 0, j < n, entry(b, j, f, p, q, v)), patterns=[z3.Select(B["feature"], j)])), [M(i)]))),
               ("records in list order", z3.Implies(r, run_order(B, 0, n)))]
        return out + [(nm, z3.Implies(r, g)) for nm, g in indexed(c, now, n)]

    def inv(c, lc):
        ex = lc.ex
        L0 = mloc(c.fld(c.pre, "annotations_"), LOGT)
        ent = lc.entry if hasattr(lc, "entry") else None
        out = []
        e0 = ex.read(L0, ex.st, facts=False)   # the log when the loop is reached
        D0, n0 = e0.d["data"].d, e0.d["len"]
        for nm, g in lc.ints():
            if not lc.modified(nm):
                continue
            cur = lambda st: log(c, st).d["data"].d
            out.append(("%s in range" % nm, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= n0)))
            out.append(("moved below %s" % nm, lambda st, g=g, cur=cur: forall([i], z3.Implies(z3.And(i >= 0, i < n0), z3.And(
                z3.Select(cur(st)["p"], i) == z3.If(i < g(st), moved(c, D0, i)[1], z3.Select(D0["p"], i)), z3.Select(cur(st)["q"], i) == z3.If(i < g(st), moved(c, D0, i)[2], z3.Select(D0["q"], i)))), [z3.Select(cur(st)["p"], i), z3.Select(cur(st)["q"], i)])))
            for m in range(3):
                out.append(("index %d below %s" % (m, nm), lambda st, g=g, m=m: indexed(c, st, g(st))[m][1]))
            S = z3.Select
            out.append(("run ends at %s" % nm, lambda st, g=g, cur=cur: z3.Or(g(st) == 0, g(st) == n0, S(cur(st)["feature"], g(st) - 1) != S(cur(st)["feature"], g(st)))))
        for f in ("feature", "v"):
            out.append(("kept " + f, lambda st, f=f: log(c, st).d["data"].d[f] == D0[f]))
        out.append(("number of records", lambda st: log(c, st).d["len"] == n0))
        return out
    return Contract(FI + "::ready_", ["error"], pre=pre, post=post, inv=inv, ret=BOOL, mods=lambda c: [mloc(c.fld(c.pre, "annotations_"), LOGT), mloc(c.fld(c.pre, "index_"), MAPT)])
