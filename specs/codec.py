"""Contracts of the byte codecs.

Byte strings are the contents of char blocks (signed chars, as the code reads them).
DEC(A,i), END(A,i): value and end of the base-128 number starting at A[i];
POS(A,o,k): where the k-th number of the code starting at o begins."""
import z3
from cov.ex import Contract, PMem, PVar, V64
from cov.types_ import Rec, INT
from cov.smt import mp

CH = ("int", 8, True)
AD = ("int", 64, True)
AS = z3.ArraySort(INT, INT)
DEC = z3.Function("DEC", AS, INT, INT)
END = z3.Function("END", AS, INT, INT)
POS = z3.Function("POS", AS, INT, INT, INT)
POSL = z3.Function("POSL", AS, INT, INT, INT)  # the same function, not unfolded further
MAX = (1 << 63) - 1
k = z3.Int("k!q")
i = z3.Int("i!q")
NS = "cottontail::"
MAXN = 1 << 56


def unfold(A, o):
    """definition of DEC and END at o: numbers longer than nine bytes are cut off"""
    end, dec = o + 10, z3.IntVal(0)
    for j in range(9, -1, -1):
        x = z3.Select(A, o + j)
        end = z3.If(x >= 0, o + j + 1, end)
        dec = z3.If(x >= 0, x, (x + 128) + 128 * dec)
    return z3.And([END(A, o) == end, DEC(A, o) == dec] + [z3.And(z3.Select(A, o + j) >= -128, z3.Select(A, o + j) <= 127) for j in range(10)])


FR = z3.Function("then", AS, AS, z3.BoolSort())  # always true: marks two states of a block, earlier and later
A_, B_ = z3.Const("A!q", AS), z3.Const("B!q", AS)
o_, n_, k_, j_ = z3.Ints("o!q n!q k!q j!q")


def agree(A, B, lo, hi):
    return z3.ForAll([j_], z3.Implies(z3.And(lo <= j_, j_ < hi), z3.Select(A, j_) == z3.Select(B, j_)), patterns=[z3.Select(B, j_)])


def end_def():
    return z3.ForAll([A_, o_], z3.And(END(A_, o_) > o_, END(A_, o_) <= o_ + 10), patterns=[END(A_, o_)])


def pos_def():
    return [z3.ForAll([A_, o_, n_], POSL(A_, o_, n_) == POS(A_, o_, n_), patterns=[POS(A_, o_, n_)]),
            z3.ForAll([A_, o_, n_], z3.If(n_ <= 0, POS(A_, o_, n_) == o_, POS(A_, o_, n_) == END(A_, POSL(A_, o_, n_ - 1))), patterns=[POS(A_, o_, n_)])]


def frame1(A, B, i):
    return z3.Implies(agree(A, B, i, END(A, i)), z3.And(END(B, i) == END(A, i), DEC(B, i) == DEC(A, i)))


def framep(A, B, o, n, P=POSL):
    return z3.Implies(z3.And(n >= 0, agree(A, B, o, P(A, o, n))), P(B, o, n) == P(A, o, n))


def mono(A, o, a, b, P=POSL):
    return z3.Implies(z3.And(0 <= a, a <= b), P(A, o, a) + (b - a) <= P(A, o, b))


def before(A, o, a, b, P=POSL):
    return z3.Implies(z3.And(0 <= a, a < b), END(A, P(A, o, a)) <= P(A, o, b))


def lemmas():
    """proved by lemma_goals"""
    return pos_def() + [
        end_def(),
        z3.ForAll([A_, B_, o_], frame1(A_, B_, o_), patterns=[mp(FR(A_, B_), END(B_, o_)), mp(FR(A_, B_), DEC(B_, o_))]),
        z3.ForAll([A_, B_, o_, n_], framep(A_, B_, o_, n_), patterns=[mp(FR(A_, B_), POSL(B_, o_, n_))]),
        z3.ForAll([A_, o_, k_, n_], mono(A_, o_, k_, n_), patterns=[z3.MultiPattern(POSL(A_, o_, k_), POSL(A_, o_, n_))]),
        z3.ForAll([A_, o_, k_, n_], before(A_, o_, k_, n_), patterns=[z3.MultiPattern(POSL(A_, o_, k_), POSL(A_, o_, n_))]),
    ]


def lemma_goals():
    A, B = z3.Const("A!l", AS), z3.Const("B!l", AS)
    o, n, m = z3.Ints("o!l n!l m!l")
    d = [unfold(A, o), unfold(B, o), end_def()]
    pd = pos_def() + [end_def()]
    F1 = z3.ForAll([A_, B_, o_], frame1(A_, B_, o_), patterns=[z3.MultiPattern(END(A_, o_), END(B_, o_))])
    # agreement on the bytes of one number, taken byte by byte
    ag = z3.And([z3.Implies(o + j < END(A, o), z3.Select(A, o + j) == z3.Select(B, o + j)) for j in range(11)])
    return [
        ("a number ends after its start", [unfold(A, o)], z3.And(END(A, o) > o, END(A, o) <= o + 10)),
        ("a number depends on its own bytes only", [unfold(A, o), unfold(B, o), z3.And([z3.Implies(z3.And(o <= o + j, o + j < END(A, o)), z3.Select(A, o + j) == z3.Select(B, o + j)) for j in range(10)])],
         z3.And(END(B, o) == END(A, o), DEC(B, o) == DEC(A, o))),
        ("agreement on a range is agreement on each byte", [agree(A, B, o, END(A, o)), end_def(), END(A, o) > o], ag),
        ("positions grow (base)", pd, mono(A, o, n, n, POS)),
        ("positions grow (step)", pd + [m >= n, n >= 0, mono(A, o, n, m, POS)], mono(A, o, n, m + 1, POS)),
        ("an earlier number ends before a later one", pd + [mono(A, o, n + 1, m, POS), m > n], before(A, o, n, m, POS)),
        ("positions depend on the bytes before them only (base)", pd, framep(A, B, o, z3.IntVal(0), POS)),
        ("positions depend on the bytes before them only (step)", pd + [F1, n >= 0, framep(A, B, o, n, POS), POS(A, o, n) >= o, agree(A, B, o, POS(A, o, n + 1))],
         POS(B, o, n + 1) == POS(A, o, n + 1)),
    ]


def mem(ex, st, p):
    from cov.ex import sel
    return sel(ex.memmap(st, p.t), p.blk)


def snap(c, A):
    """a name for the block contents (terms with stores make poor patterns)"""
    if c.ex.cx is not c:
        return A
    B = z3.Const(c.ex.name("blk"), AS)
    c.ex.assume(B == A)
    return B


def ptr(ex, t, nm):
    b, o = z3.Int(nm + ".blk"), z3.Int(nm + ".off")
    ex.assume(z3.And(b > 0, o >= 0, b < ex.st.alloc))
    return PMem(t, b, o)


def setup(ts):
    def f(ex, fd, this):
        out = []
        for nm, t in ts:
            if t[0] == "ptr" and nm.startswith("*"):
                out.append(PVar(ex.new_cell(t[1], ex.fresh(t[1], nm), nm)))
            elif t[0] == "ptr":
                out.append(ptr(ex, t[1], nm))
            else:
                out.append(ex.fresh(t, nm))
        return out
    return f


def prev(L, b, k):
    return z3.If(k == 0, z3.IntVal(0), z3.Select(L, b + k - 1))


def codes(A, o, L, b, n):
    """the first n numbers of A from o are the differences of L[b..b+n)"""
    return z3.And(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(
        END(A, POSL(A, o, k)) <= POSL(A, o, k) + 9, DEC(A, POSL(A, o, k)) == z3.Select(L, b + k) - prev(L, b, k))), patterns=[POSL(A, o, k)]), POS(A, o, n) <= o + 9 * n)


def blockloc(p):
    from cov.ex import Loc
    return Loc(("mem", str(p.t), p.blk, p.t), (), ("arr", p.t))


def define(c, f):
    """definitional facts, available when the function itself is verified"""
    if c.ex.cx is c:
        c.ex.assume(f)


def encode_1():
    def pre(c):
        p = c[1]
        return [("not negative", c[0] >= 0), ("room for nine bytes", p.off + 9 <= c.ex.blen(p.blk)), ("in range", p.off >= 0)]

    def post(c):
        ex, p, r = c.ex, c[1], c.ret
        A, B = mem(ex, c.pre, p), snap(c, mem(ex, c.post, p))
        define(c, unfold(B, p.off))
        define(c, FR(A, B))
        return [("states", FR(A, B)), ("same block", r.blk == p.blk), ("at most nine bytes", z3.And(p.off < r.off, r.off <= p.off + 9)),
                ("decodes to the number", z3.And(DEC(B, p.off) == c[0], END(B, p.off) == r.off)),
                ("bytes elsewhere kept", z3.ForAll([k], z3.Implies(z3.Or(k < p.off, k >= r.off), z3.Select(B, k) == z3.Select(A, k)), patterns=[z3.Select(B, k)]))]
    return Contract(NS + "encode_1", ["delta", "out"], pre=pre, post=post, mods=lambda c: [blockloc(c[1])], ret=lambda c: PMem(CH, c[1].blk, z3.Const(c.ex.name("ret.off"), INT)),
                    setup=setup([("delta", AD), ("out", ("ptr", CH))]), opts={"unroll": 10})


def decode_1():
    def su(ex, f, this):
        a = setup([("in", ("ptr", CH)), ("*delta", ("ptr", AD))])(ex, f, this)
        ex.assume(unfold(mem(ex, ex.st, a[0]), a[0].off))
        return a

    def pre(c):
        p = c[0]
        A = mem(c.ex, c.ex.st, p)
        return [("in range", p.off >= 0), ("a number of at most nine bytes", END(A, p.off) <= p.off + 9), ("that fits the machine", DEC(A, p.off) <= MAX),
                ("inside the block", END(A, p.off) <= c.ex.blen(p.blk))]

    def post(c):
        p = c[0]
        A = mem(c.ex, c.pre, p)
        return [("same block", c.ret.blk == p.blk), ("stops at the number's end", c.ret.off == END(A, p.off)), ("the number", c.at(c.post, 1) == DEC(A, p.off))]
    return Contract(NS + "decode_1", ["in", "delta"], pre=pre, post=post, mods=lambda c: [c.loc(1)], ret=lambda c: PMem(CH, c[0].blk, z3.Const(c.ex.name("ret.off"), INT)), setup=su, opts={"unroll": 10})


def sorted_list(L, b, n):
    return [("addresses not negative", z3.ForAll([k], z3.Implies(z3.And(k >= b, k < b + n), z3.Select(L, k) >= 0), patterns=[z3.Select(L, k)])),
            ("ascending", z3.ForAll([k], z3.Implies(z3.And(k > b, k < b + n), z3.Select(L, k - 1) <= z3.Select(L, k)), patterns=[z3.Select(L, k)])),
            ("words", z3.ForAll([k], z3.And(z3.Select(L, k) <= MAX, z3.Select(L, k) >= -MAX - 1), patterns=[z3.Select(L, k)]))]


def fits(ex, p, n):
    """so many items of the pointer's type are inside its block"""
    return z3.And(p.off >= 0, p.off + n <= ex.blen(p.blk), n >= 0)


def with_lemmas(ts):
    s0 = setup(ts)

    def f(ex, fd, this):
        for x in lemmas():
            ex.assume(x)
        return s0(ex, fd, this)
    return f


def encode_all():
    def pre(c):
        ex = c.ex
        L = mem(ex, ex.st, c[0])
        return [("length", z3.And(c[1] >= 0, c[1] <= MAXN)), ("the list is there", fits(ex, c[0], c[1])), ("room for nine bytes each", fits(ex, c[2], 9 * c[1]))] + \
            sorted_list(L, c[0].off, c[1])

    def post(c):
        ex, p = c.ex, c[2]
        L = mem(ex, c.pre, c[0])
        A, B = mem(ex, c.pre, p), snap(c, mem(ex, c.post, p))
        return [("codes the list", codes(B, p.off, L, c[0].off, c[1])), ("length returned", c.ret == POS(B, p.off, c[1]) - p.off), ("at most nine bytes each", c.ret <= 9 * c[1]),
                ("bytes before kept", z3.ForAll([k], z3.Implies(k < p.off, z3.Select(B, k) == z3.Select(A, k)), patterns=[z3.Select(B, k)]))]

    def inv(c, lc):
        ex, o = lc.ex, c[2]
        L, b = mem(ex, c.pre, c[0]), c[0].off
        A = mem(ex, c.pre, o)
        B = lambda st: mem(ex, st, o)
        out = [("before kept", lambda st: z3.ForAll([k], z3.Implies(k < o.off, z3.Select(B(st), k) == z3.Select(A, k)), patterns=[z3.Select(B(st), k)]))]
        ints = lc.ints()
        for nm, gi in ints:
            out.append(("%s in list" % nm, lambda st, gi=gi: z3.And(gi(st) >= b, gi(st) <= b + c[1])))
            for nm2, go in ints:
                if nm != nm2:
                    out.append(("%s is at number %s" % (nm2, nm), lambda st, gi=gi, go=go: z3.And(go(st) == POS(B(st), o.off, gi(st) - b), go(st) >= o.off, go(st) <= o.off + 9 * (gi(st) - b))))
                    out.append(("%s is the entry before %s" % (nm2, nm), lambda st, gi=gi, go=go: go(st) == prev(L, b, gi(st) - b)))
            out.append(("coded up to %s" % nm, lambda st, gi=gi: codes(B(st), o.off, L, b, gi(st) - b)))
        return out
    return Contract(NS + "encode_all", ["list", "n", "out"], pre=pre, post=post, mods=lambda c: [blockloc(c[2])], ret=("int", 64, False), inv=inv,
                    setup=with_lemmas([("list", ("ptr", AD)), ("n", AD), ("out", ("ptr", CH))]))


L0, N0 = z3.Const("coded.list", AS), z3.Int("coded.count")  # the list that was coded (ghost)


def coded(A, o, n):
    return [("the count", z3.And(N0 >= 0, N0 <= MAXN)), ("codes the list", codes(A, o, L0, z3.IntVal(0), N0)), ("exactly", POS(A, o, N0) - o == n)] + \
        [("the list: " + nm, f) for nm, f in sorted_list(L0, z3.IntVal(0), N0)]


def listed(X, b, n):
    return z3.ForAll([k], z3.Implies(z3.And(k >= b, k < b + n), z3.Select(X, k) == z3.Select(L0, k - b)), patterns=[z3.Select(X, k)])


def decode_all():
    def pre(c):
        ex = c.ex
        A = mem(ex, ex.st, c[0])
        return [("length", c[1] <= 9 * MAXN), ("the code is there", fits(ex, c[0], c[1]))] + coded(A, c[0].off, c[1]) + \
            [("room for the list", z3.And(fits(ex, c[2], c[3]), N0 <= c[3], c[3] <= MAXN))]

    def post(c):
        ex, p = c.ex, c[2]
        B = snap(c, mem(ex, c.post, p))
        return [("count returned", c.ret == N0), ("the list that was coded", listed(B, p.off, N0))]

    def inv(c, lc):
        ex, p = lc.ex, c[0]
        A = mem(ex, c.pre, p)
        q = c[2]
        out = []
        ints = lc.ints()
        for nm, gi in ints:
            out.append(("%s in list" % nm, lambda st, gi=gi: z3.And(gi(st) >= q.off, gi(st) <= q.off + N0)))
            out.append(("listed up to %s" % nm, lambda st, gi=gi: listed(mem(ex, st, q), q.off, gi(st) - q.off)))
            for nm2, go in ints:
                if nm != nm2:
                    out.append(("%s is at number %s" % (nm2, nm), lambda st, gi=gi, go=go: go(st) == POS(A, p.off, gi(st) - q.off)))
                    out.append(("%s is the entry before %s" % (nm2, nm), lambda st, gi=gi, go=go: go(st) == prev(L0, z3.IntVal(0), gi(st) - q.off)))
        return out
    return Contract(NS + "decode_all", ["in", "length", "list", "n"], pre=pre, post=post, mods=lambda c: [blockloc(c[2])], ret=("int", 64, False), inv=inv,
                    setup=with_lemmas([("in", ("ptr", CH)), ("length", ("int", 64, False)), ("list", ("ptr", AD)), ("n", ("int", 64, False))]))


def words(p):
    """a byte pointer seen as a pointer to 64-bit words"""
    return PMem(AD, V64(p.blk), p.off / 8)


SZ = ("int", 64, False)
ARGS = [("in", ("ptr", CH)), ("length", SZ), ("out", ("ptr", CH)), ("available", SZ)]


def post_crush():
    def pre(c):
        ex, p, q = c.ex, c[0], c[2]
        n = c[1] / 8
        return [("whole words, aligned", z3.And(c[1] % 8 == 0, p.off % 8 == 0, c[1] <= MAXN)), ("input is there", fits(ex, p, c[1])),
                ("room as advertised", z3.And(c[3] >= c[1] + n + 2, fits(ex, q, c[3])))] + sorted_list(mem(ex, ex.st, words(p)), p.off / 8, n)

    def post(c):
        ex, p, q = c.ex, c[0], c[2]
        L, B = mem(ex, c.pre, words(p)), snap(c, mem(ex, c.post, q))
        n = c[1] / 8
        return [("codes the list", codes(B, q.off, L, p.off / 8, n)), ("length returned", c.ret == POS(B, q.off, n) - q.off), ("within the room", c.ret <= c[3])]
    return Contract(NS + "PostCompressor::crush_", [a for a, _ in ARGS], pre=pre, post=post, mods=lambda c: [blockloc(c[2])], ret=SZ, setup=with_lemmas(ARGS))


def post_tang():
    def pre(c):
        ex, p, q = c.ex, c[0], c[2]
        A = mem(ex, ex.st, p)
        return [("length", c[1] <= 9 * MAXN), ("the code is there", fits(ex, p, c[1]))] + coded(A, p.off, c[1]) + \
            [("room for the list", z3.And(fits(ex, q, c[3]), 8 * N0 <= c[3], c[3] <= MAXN, q.off % 8 == 0))]

    def post(c):
        ex, q = c.ex, c[2]
        B = snap(c, mem(ex, c.post, words(q)))
        return [("bytes returned", c.ret == 8 * N0), ("the list that was coded", listed(B, q.off / 8, N0))]
    return Contract(NS + "PostCompressor::tang_", [a for a, _ in ARGS], pre=pre, post=post, mods=lambda c: [blockloc(words(c[2]))], ret=SZ, setup=with_lemmas(ARGS))


def post_extra():
    return Contract(NS + "PostCompressor::extra_", ["n"], pre=lambda c: [("a length", z3.And(c[0] >= 0, c[0] <= MAX - 2))], ret=AD,
                    post=lambda c: [("room for nine bytes per word", c.ret + c[0] >= 9 * (c[0] / 8))])


def contracts():
    out = {}
    for c in (encode_1(), decode_1(), encode_all(), decode_all()):
        out[c.q] = c
    return out


def copy_codec(cls, name, rep, crush):
    """the codecs that keep (rep 1) or repeat (rep 2) every byte"""
    def pre(c):
        ex, p, q = c.ex, c[0], c[2]
        n = c[1]
        out = [("input is there", z3.And(fits(ex, p, n), n <= MAXN)), ("other block", p.blk != q.blk), ("room", fits(ex, q, c[3]))]
        if crush:
            out.append(("room as advertised", c[3] >= rep * n))
        else:
            A = mem(ex, ex.st, p)
            out += [("whole groups", n % rep == 0), ("room", c[3] * rep >= n)]
            if rep == 2:
                out.append(("pairs", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n / 2), z3.Select(A, p.off + 2 * k) == z3.Select(A, p.off + 2 * k + 1)),
                                               patterns=[z3.Select(A, p.off + 2 * k)])))
        return out

    def rel(A, B, p, q, m):
        """first m plain bytes match"""
        if crush:
            return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And([z3.Select(B, q.off + rep * k + r) == z3.Select(A, p.off + k) for r in range(rep)])),
                             patterns=[z3.Select(A, p.off + k)])
        return z3.ForAll([k], z3.Implies(z3.And(k >= q.off, k < q.off + m), z3.Select(B, k) == z3.Select(A, p.off + rep * (k - q.off))), patterns=[z3.Select(B, k)])

    def post(c):
        ex, p, q = c.ex, c[0], c[2]
        A, B = mem(ex, c.pre, p), snap(c, mem(ex, c.post, q))
        n = c[1] if crush else c[1] / rep
        return [("length returned", c.ret == (rep * c[1] if crush else c[1] / rep)), ("the bytes", rel(A, B, p, q, n))]

    def inv(c, lc):
        ex, p, q = lc.ex, c[0], c[2]
        A = mem(ex, c.pre, p)
        B = lambda st: mem(ex, st, q)
        out = []
        for nm, g in lc.ints():
            for nm2, g2 in lc.ints():
                if nm != nm2:
                    for a, b in ((1, 2), (2, 1), (1, 1)):
                        out.append(("%d*(%s-start)==%d*(%s-start)" % (a, nm, b, nm2), lambda st, g=g, g2=g2, a=a, b=b: a * (g(st) - g(lc.entry)) == b * (g2(st) - g2(lc.entry))))
            out.append(("first %s done" % nm, lambda st, g=g: rel(A, B(st), p, q, g(st))))
            out.append(("first %s/2 done" % nm, lambda st, g=g: rel(A, B(st), p, q, g(st) / 2)))
            out.append(("%s even" % nm, lambda st, g=g: g(st) % 2 == 0))
            out.append(("%s<=length+1" % nm, lambda st, g=g: g(st) <= c[1]))
        return out
    return Contract(NS + cls + "::" + name, [a for a, _ in ARGS], pre=pre, post=post, mods=lambda c: [blockloc(c[2])], ret=SZ, inv=inv, setup=setup(ARGS))


def copy_codecs():
    return [copy_codec(c, n, r, n == "crush_") for c, r in (("NullCompressor", 1), ("BadCompressor", 2)) for n in ("crush_", "tang_")]
