"""Contracts of reading text back: one shard's text, all shards' text.

The text of a shard is a string T cut into chunks: an interval stream E whose
elements (a,b) are disjoint address intervals, ascending like their offsets
V(a,b) in T.  SK(T,o,k) is where the tokenizer stands after skipping k tokens
from offset o (the start of the next token, or the end of T)."""
import z3
from cov.ex import Contract, Loc, PElem
from cov.types_ import INT, I64_MAX as MAX, I64_MIN as MIN
from cov.smt import forall
from . import hoppers as H
from .hoppers import E, V, sig_n
from .append import mloc, STR

FT, BOOL, I64 = "cottontail::FiverTxt", ("bool",), ("int", 64, True)
TXT = "cottontail::Txt"
SK = z3.Function("skip.to", INT, INT, INT, INT)  # (text object, offset, tokens)
SUM = z3.Function("tokens.before", INT, INT, INT)  # (stream, start of an element): tokens in earlier elements
NX, NXQ = z3.Function("next.start", INT, INT, INT), z3.Function("next.end", INT, INT, INT)
a, b, c_, d_, o, k, m = z3.Ints("a!q b!q c!q d!q o!q k!q m!q")


def chunks(h, t, n):
    """h: stream of chunks of the text object t of length n"""
    return [
        ("class: chunks lie at addresses", z3.ForAll([a, b], z3.Implies(z3.And(E(h, a, b), a != MIN, a != MAX), z3.And(a >= 0, b < MAX - 1)), patterns=[E(h, a, b)])),
        ("class: chunks are disjoint", z3.ForAll([a, b, c_, d_], z3.Implies(z3.And(E(h, a, b), E(h, c_, d_), a < c_), b < c_), patterns=[z3.MultiPattern(E(h, a, b), E(h, c_, d_))])),
        ("class: chunk offsets inside the text", z3.ForAll([a, b], z3.Implies(z3.And(E(h, a, b), a != MIN, a != MAX), z3.And(V(h, a, b) >= 0, V(h, a, b) <= n)), patterns=[V(h, a, b)])),
        ("class: a chunk's tokens start before the next chunk", z3.ForAll([a, b, c_, d_, k], z3.Implies(z3.And(E(h, a, b), E(h, c_, d_), a != MIN, c_ != MAX, a < c_, k >= 0, k <= b - a), z3.And(
            V(h, a, b) <= V(h, c_, d_), SK(t, V(h, a, b), k) <= V(h, c_, d_))), patterns=[z3.MultiPattern(SK(t, V(h, a, b), k), E(h, c_, d_))])),
        ("class: skipping", z3.ForAll([o, k], z3.Implies(z3.And(o >= 0, o <= n), z3.And(SK(t, o, k) >= o, SK(t, o, k) <= n)), patterns=[SK(t, o, k)])),
        ("class: skipping in two steps", z3.ForAll([a, b, k, m], z3.Implies(z3.And(k >= 0, m >= 0), SK(t, SK(t, V(h, a, b), k), m) == SK(t, V(h, a, b), k + m)), patterns=[SK(t, SK(t, V(h, a, b), k), m)])),
    ]


def callees():
    out = dict(H.public_contracts())

    def skip_pre(c):
        p = c["buffer"]
        n = c.ex.read(p.loc, c.pre, facts=False).d["len"]
        return [("from inside the text", z3.And(p.idx >= 0, p.idx <= n)), ("to the end of the text", p.idx + c["length"] == n), ("a number of tokens", c["n"] >= 0)]

    def skip_ret(c):
        p = c["buffer"]
        return PElem(p.loc, SK(c.ex.cx.fld(c.ex.cx.pre, "text_"), p.idx, c["n"]), p.t)
    out["cottontail::Tokenizer::skip"] = [Contract("cottontail::Tokenizer::skip", ["buffer", "length", "n"], pre=skip_pre, ret=skip_ret, sig=sig_n(3), assumed=True)]
    return out


def text(c, st):
    return c.ex.read(mloc(c.fld(c.pre, "text_"), STR), st, facts=False)


def parts(c):
    h, t = c.fld(c.pre, "hopper_"), c.fld(c.pre, "text_")
    n = text(c, c.pre).d["len"]
    return [("its parts are there", z3.And(h > 0, t > 0, c.fld(c.pre, "tokenizer_") > 0)), ("length", z3.And(n >= 0, n <= 1 << 60)), ("its lock is free", c.fld(c.pre, "mutex_") == 0)] + \
        H.axioms() + [("sentinels", H.sentinels(h))] + chunks(h, t, n)


def fiver_translate():
    F = z3.Ints("fp fq lp lq")

    def ends(c):
        """the first chunk ending at or after p, the last starting at or before q"""
        h = c.fld(c.pre, "hopper_")
        fp, fq, lp, lq = F
        p = z3.If(c["p"] < 0, z3.IntVal(0), c["p"])
        q = c["q"]
        return p, q, fp, fq, lp, lq, h

    def pre(c):
        p, q, fp, fq, lp, lq, h = ends(c)
        return parts(c) + [("definition: first chunk", f) for _, f in H.first_q(h, p, fp, fq)] + [("definition: last chunk", f) for _, f in H.last_p(h, z3.If(q == MAX, q - 1, q), lp, lq)]

    def post(c):
        p, q, fp, fq, lp, lq, h = ends(c)
        t = c.fld(c.pre, "text_")
        T = text(c, c.pre)
        R = c.ret
        B = SK(t, V(h, lp, lq), z3.If(q <= lq, q, lq) - lp + 1)
        none = z3.Or(q < p, fp == MAX, fp > q)
        return [("no text where there is none", z3.Implies(none, R.d["len"] == 0)), ("lock is free", c.fld(c.post, "mutex_") == 0)] + [
            (nm + " (%s, %s)" % (w1, w2), z3.Implies(z3.And(z3.Not(none), g1, g2), f)) for w1, g1, A in (("from a chunk's start", p <= fp, V(h, fp, fq)), ("from inside a chunk", p > fp, SK(t, V(h, fp, fq), p - fp)))
            for w2, g2 in (("one chunk", lq == fq), ("several chunks", lq != fq)) for nm, f in (
                ("from the first token at or after p to the end of the last at or before q", R.d["len"] == B - A),
                ("exactly the stored characters", forall([a], z3.Implies(z3.And(a >= 0, a < R.d["len"]), z3.Select(R.d["data"], a) == z3.Select(T.d["data"], A + a)), [z3.Select(R.d["data"], a)])))]
    return Contract(FT + "::translate_", ["p", "q"], pre=pre, post=post, ret=STR, mods=lambda c: [c.ex.field(c.this, "mutex_")], opts={"mutex": True})


def steps(h):
    """tokens.before: a running sum over the elements; next.*: the following element"""
    return [("definition: next", z3.ForAll([a, b], z3.Implies(z3.And(E(h, a, b), a != MAX), z3.And(E(h, NX(h, a), NXQ(h, a)), NX(h, a) > a)), patterns=[E(h, a, b)] if False else [z3.MultiPattern(E(h, a, b), SUM(h, a))])),
            ("definition: next", z3.ForAll([a, b, c_, d_], z3.Implies(z3.And(E(h, a, b), E(h, c_, d_), c_ > a), c_ >= NX(h, a)), patterns=[z3.MultiPattern(NX(h, a), E(h, a, b), E(h, c_, d_))])),
            ("definition: tokens before", z3.ForAll([a, b], z3.Implies(z3.And(E(h, a, b), a != MAX), SUM(h, NX(h, a)) == z3.If(a == MIN, z3.IntVal(0), SUM(h, a) + b - a + 1)), patterns=[z3.MultiPattern(E(h, a, b), SUM(h, a))])),
            ("definition: none before the first", SUM(h, MIN) == 0)]


def count_inv(c, st):
    """the remembered number is the right one"""
    h = c.fld(c.pre, "hopper_")
    n = c.fld(st, "count_")
    return ("class: a remembered number of tokens is right", z3.Or(n < 0, n == SUM(h, MAX)))


def fiver_tokens():
    def pre(c):
        h = c.fld(c.pre, "hopper_")
        return parts(c) + steps(h) + [count_inv(c, c.pre)]

    def post(c):
        h = c.fld(c.pre, "hopper_")
        return [("as many tokens as its chunks hold", c.ret == SUM(h, MAX)), count_inv(c, c.post), ("lock is free", c.fld(c.post, "mutex_") == 0)]

    def inv(c, lc):
        h = c.fld(c.pre, "hopper_")
        out = []
        cnt = lambda st: c.fld(st, "count_")
        for nm, g in lc.ints():
            out += [("count up to %s" % nm, lambda st, g=g: cnt(st) == SUM(h, g(st))), ("count at most %s" % nm, lambda st, g=g: z3.And(cnt(st) >= 0, cnt(st) <= g(st))), ("%s >= 0" % nm, lambda st, g=g: g(st) >= 0)]
            for n2, g2 in lc.ints():
                if n2 != nm:
                    out.append(("E(%s,%s)" % (nm, n2), lambda st, g=g, g2=g2: E(h, g(st), g2(st))))
        return out
    return Contract(FT + "::tokens_", [], pre=pre, post=post, inv=inv, ret=I64, mods=lambda c: [c.ex.field(c.this, n) for n in ("mutex_", "count_")], opts={"mutex": True})


# ------------------------------------------------------------ one shard's extent
def fiver_range():
    FP = z3.Ints("first.p first.q last.p last.q")

    def defs(c):
        h = c.fld(c.pre, "hopper_")
        return [("definition: first chunk", f) for _, f in H.first_p(h, z3.IntVal(MIN + 1), FP[0], FP[1])] + [("definition: last chunk", f) for _, f in H.last_q(h, z3.IntVal(MAX - 1), FP[2], FP[3])]

    def right(p, q):
        return z3.And(p == FP[0], q == z3.If(FP[0] == MAX, z3.IntVal(MAX), FP[3]))

    def inv(c, st):
        return ("class: a remembered extent is right", z3.Implies(c.fld(st, "range_valid_"), right(c.fld(st, "range_p_"), c.fld(st, "range_q_"))))

    def pre(c):
        return parts(c) + defs(c) + [inv(c, c.pre)]

    def post(c):
        r = c.ex.as_bool(c.ret)
        return [("there is text exactly if there is a chunk", r == (FP[0] != MAX)), ("from the first chunk's start to the last chunk's end", right(c.at(c.post, "p"), c.at(c.post, "q"))), inv(c, c.post), ("lock is free", c.fld(c.post, "mutex_") == 0)]
    return Contract(FT + "::range_", ["p", "q"], pre=pre, post=post, ret=BOOL, mods=lambda c: [c.ex.field(c.this, n) for n in ("mutex_", "range_valid_", "range_p_", "range_q_")] + [c.loc("p"), c.loc("q")], opts={"mutex": True})


# ------------------------------------------------------------ all shards' text
BT, WA, OW = "cottontail::BigwigTxt", "cottontail::Warren", "cottontail::Owsla"
TL = z3.Function("text.len", INT, INT, INT, INT)
TC = z3.Function("text.char", INT, INT, INT, INT, INT)
TN = z3.Function("text.tokens", INT, INT)
HAS, LO, HI = z3.Function("text.any", INT, z3.BoolSort()), z3.Function("text.lo", INT, INT), z3.Function("text.hi", INT, INT)
OFF, OFFL = z3.Function("text.offset", INT, INT), z3.Function("text.offset'", INT, INT)
NUM, NUML = z3.Function("text.number", INT, INT), z3.Function("text.number'", INT, INT)
i, j = z3.Ints("i!q j!q")


def all_callees():
    def tr_post(c):
        x, p, q, R = c.this.root[2], c["p"], c["q"], c.ret
        return [("", z3.And(R.d["len"] == TL(x, p, q), R.d["len"] >= 0, R.d["len"] <= 1 << 40)), ("", forall([i], z3.Implies(z3.And(i >= 0, i < R.d["len"]), z3.Select(R.d["data"], i) == TC(x, p, q, i)), [z3.Select(R.d["data"], i)]))]
    tr = Contract(TXT + "::translate", ["p", "q"], ret=STR, post=tr_post, sig=sig_n(2))
    tk = Contract(TXT + "::tokens", [], ret=I64, post=lambda c: [("", c.ret == TN(c.this.root[2])), ("", z3.And(c.ret >= 0, c.ret <= 1 << 40))])

    def rg_post(c):
        x = c.this.root[2]
        r = c.ex.as_bool(c.ret)
        return [("", r == HAS(x)), ("", z3.Implies(r, z3.And(c.at(c.post, "p") == LO(x), c.at(c.post, "q") == HI(x))))]
    rg = Contract(TXT + "::range", ["p", "q"], ret=BOOL, post=rg_post, mods=lambda c: [c.loc("p"), c.loc("q")])

    def tx(c):
        return c.ex.read(c.ex.field(c.ex.obj(c.this.root[2], WA), "txt_"), c.pre, facts=False)
    return {x.q: [x] for x in (tr, tk, rg)}


def bigwig_txt():
    W = lambda c: c.fld(c.pre, "warrens_")
    at = lambda c, n: c.ex.read(c.ex.field(c.ex.obj(z3.Select(W(c).d["data"], n), WA), "txt_"), c.pre, facts=False)
    st_ = lambda c, n: c.ex.read(c.ex.field(c.ex.obj(z3.Select(W(c).d["data"], n), WA), "started_"), c.pre, facts=False)

    def pre(c):
        w = W(c)
        return [("as many shards as fit", z3.And(w.d["len"] >= 0, w.d["len"] <= 1 << 20)),
                ("every shard is there, started and has its text", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.d["len"]), z3.And(z3.Select(w.d["data"], i) > 0, at(c, i) > 0, st_(c, i))), patterns=[z3.Select(w.d["data"], i)]))]
    from .posting import unroll

    def run(F, FL, val):
        return [("definition: sum over the shards before", f) for f in unroll(F, FL, z3.IntVal(0), z3.IntVal(0), lambda a_, prev: prev + val(a_))]

    def tr_pre(c):
        return pre(c) + run(OFF, OFFL, lambda n: TL(at(c, n), c["p"], c["q"])) + [("sums of lengths", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < W(c).d["len"]), TL(at(c, i), c["p"], c["q"]) >= 0), patterns=[OFF(i)]))]

    def so_far(c, R, n):
        return [("length", z3.And(R.d["len"] == OFF(n), R.d["len"] >= 0, R.d["len"] <= n * (1 << 40))),
                ("offsets", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(OFF(j) >= 0, OFF(j) + TL(at(c, j), c["p"], c["q"]) <= OFF(n))), patterns=[OFF(j)])),
                ("every shard's text in its place", z3.ForAll([j, i], z3.Implies(z3.And(j >= 0, j < n, i >= 0, i < TL(at(c, j), c["p"], c["q"])), z3.Select(R.d["data"], OFF(j) + i) == TC(at(c, j), c["p"], c["q"], i)),
                                                              patterns=[z3.MultiPattern(OFF(j), TC(at(c, j), c["p"], c["q"], i))]))]

    def tr_inv(c, lc):
        out = []
        strs = [(nm, l) for nm, l in lc.cells() if l.t and l.t[0] == "str"]
        for nm, g in lc.ints():
            out.append(("%s in range" % nm, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= W(c).d["len"])))
            for sn, l in strs:
                for m_ in range(3):
                    out.append(("%s up to %s: %d" % (sn, nm, m_), lambda st, g=g, l=l, m_=m_: so_far(c, c.ex.read(l, st, facts=False), g(st))[m_][1]))
        return out
    tr = Contract(BT + "::translate_", ["p", "q"], pre=tr_pre, post=lambda c: [(nm, f) for nm, f in so_far(c, c.ret, W(c).d["len"])], inv=tr_inv, ret=STR, mods=lambda c: [])

    def tk_inv(c, lc):
        out = []
        for nm, g in lc.ints():
            out.append(("%s in range" % nm, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= W(c).d["len"])))
            for n2, g2 in lc.ints():
                if n2 != nm:
                    out.append(("%s sums up to %s" % (n2, nm), lambda st, g=g, g2=g2: z3.And(g2(st) == NUM(g(st)), g2(st) >= 0, g2(st) <= g(st) * (1 << 40))))
        return out
    tk = Contract(BT + "::tokens_", [], pre=lambda c: pre(c) + run(NUM, NUML, lambda n: TN(at(c, n))), post=lambda c: [("the sum over all shards", c.ret == NUM(W(c).d["len"]))], inv=tk_inv, ret=I64, mods=lambda c: [])

    def rg_post(c):
        r = c.ex.as_bool(c.ret)
        p, q = c.at(c.post, "p"), c.at(c.post, "q")
        n = W(c).d["len"]
        has = lambda x: HAS(at(c, x))
        none = lambda lo, hi: z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), z3.Not(has(j))), patterns=[z3.Select(W(c).d["data"], j)])
        return [("there is text exactly if a shard has some", z3.And(z3.Implies(r, z3.Exists([i], z3.And(i >= 0, i < n, has(i)))), z3.Implies(z3.Not(r), none(z3.IntVal(0), n)))),
                ("from the first shard with text", z3.Implies(r, z3.Exists([i], z3.And(i >= 0, i < n, has(i), p == LO(at(c, i)), none(z3.IntVal(0), i))))),
                ("to the last shard with text", z3.Implies(r, z3.Exists([i], z3.And(i >= 0, i < n, has(i), q == HI(at(c, i)), none(i + 1, n))))),
                ("otherwise no address", z3.Implies(z3.Not(r), z3.And(p == MAX, q == MAX)))]

    def rg_inv(c, lc):
        out = []
        n = W(c).d["len"]
        has = lambda x: HAS(at(c, x))
        none = lambda lo, hi: z3.ForAll([j], z3.Implies(z3.And(j >= lo, j < hi), z3.Not(has(j))), patterns=[z3.Select(W(c).d["data"], j)])
        for nm, g in lc.ints():
            out += [("%s in range" % nm, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= n)), ("%s inside" % nm, lambda st, g=g: g(st) < n),
                    ("none below %s" % nm, lambda st, g=g: none(z3.IntVal(0), g(st))), ("none above %s" % nm, lambda st, g=g: none(g(st) + 1, n))]
            for n2, g2 in lc.ints():
                if n2 != nm:
                    out += [("%s>=%s" % (nm, n2), lambda st, g=g, g2=g2: g(st) >= g2(st))]
        return out
    rg = Contract(BT + "::range_", ["p", "q"], pre=pre, post=rg_post, inv=rg_inv, ret=BOOL, mods=lambda c: [c.loc("p"), c.loc("q")])
    return [tr, tk, rg]
