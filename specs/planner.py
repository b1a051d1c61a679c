"""Contracts of choosing which shards to merge, and of finding a feature in a compressed shard."""
import z3
from cov.ex import Contract
from cov.types_ import INT
from cov.smt import forall
from .recovery import V, at, room, marks, each, some, MK, SH, BOOL, SIZE

i, j = z3.Ints("i!m j!m")
C = "cottontail::"


def shard_lists():
    def has_post(c):
        H, a, b, r = at(c, c.pre, "hazels"), c["start"], c["end"], c.ex.as_bool(c.ret)
        hit = lambda x: z3.And(H.s(x) == a, H.e(x) == b)
        return [("found if there is one", z3.Implies(z3.Not(r), z3.ForAll([i], z3.Implies(H.inr(i), z3.Not(hit(i))), patterns=[H.s(i)]))),
                ("and only then", z3.Implies(r, z3.Exists([i], z3.And(H.inr(i), hit(i)))))]

    def has_inv(c, lc):
        H, a, b = at(c, c.pre, "hazels"), c["start"], c["end"]
        return [x for nm, g in lc.ints() if lc.modified(nm) for x in (
            ("%s in range" % nm, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= H.n)),
            ("none before %s" % nm, lambda st, g=g: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < g(st)), z3.Not(z3.And(H.s(i) == a, H.e(i) == b))), patterns=[H.s(i)])))]
    has = Contract(C + "has_hazel", ["hazels", "start", "end"], pre=lambda c: room(at(c, c.pre, "hazels")), post=has_post, inv=has_inv, ret=BOOL)

    def chain(H, G, off, n):
        """G's first n are H's from off on, each beginning right behind the one before"""
        return [("neighbours in the list", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(G.s(j) == H.s(off + j), G.e(j) == H.e(off + j), MK["L"](off + j))), patterns=[G.s(j)])),
                ("without gaps", z3.ForAll([j], z3.Implies(z3.And(j > 0, j < n), G.s(j) == G.e(j - 1) + 1), patterns=[G.s(j)]))]

    def grp_post(c):
        H, a, b, r = at(c, c.pre, "hazels"), c["start"], c["end"], c.ex.as_bool(c.ret)
        G = at(c, c.post, "sources")
        return [("two or more", z3.Implies(r, G.n >= 2)), ("from the first", z3.Implies(r, G.s(0) == a)), ("to the last", z3.Implies(r, G.e(G.n - 1) == b)),
                ("without gaps", z3.Implies(r, z3.ForAll([j], z3.Implies(z3.And(j > 0, j < G.n), G.s(j) == G.e(j - 1) + 1), patterns=[G.s(j)])))]

    def grp_inv(c, lc):
        H, a, b, ex = at(c, c.pre, "hazels"), c["start"], c["end"], lc.ex
        out = []
        vs = [(nm, l) for nm, l in lc.cells() if l.t == SH]
        ints = [x for x in lc.ints()]
        for nm, g in ints:
            if lc.modified(nm):
                out.append(("%s in range" % nm, lambda st, g=g: z3.And(g(st) >= 0, g(st) <= H.n)))
        for vn, l in vs:
            G = lambda st, l=l: V(ex.read(l, st, facts=False))
            for n1, g1 in ints:
                for n2, g2 in ints:
                    if n1 != n2:
                        for x in range(2):
                            out.append(("%s %d: from %s to %s" % (vn, x, n1, n2), lambda st, g1=g1, g2=g2, x=x, G=G: z3.And(G(st).n == g2(st) - g1(st), G(st).n >= 0, chain(H, G(st), g1(st), G(st).n)[x][1])))
                out.append(("%s goes on at %s" % (vn, n1), lambda st, g1=g1, G=G: z3.And(z3.Implies(G(st).n == 0, g1(st) == a), z3.Implies(G(st).n > 0, z3.And(G(st).s(0) == a, g1(st) == G(st).e(G(st).n - 1) + 1)))))
        return out
    seen = lambda H: [("marks where read", z3.ForAll([j], MK["L"](j), patterns=[H.s(j)]))]
    grp = Contract(C + "hazel_source_group", ["hazels", "start", "end", "sources"], pre=lambda c: marks() + seen(at(c, c.pre, "hazels")) + room(at(c, c.pre, "hazels")) + [("shards cover sequences", at(c, c.pre, "hazels").valid())],
                   post=grp_post, inv=grp_inv, ret=BOOL, mods=lambda c: [c.loc("sources")])
    return has, grp


def choices():
    vec = lambda c: c.at(c.pre, "a")

    def rows(c):
        a = vec(c)
        n, d = a.d["len"], a.d["data"]
        return n, (lambda x: z3.Select(d, x))

    def out(c, n):
        return c.at(c.post, n)
    big = lambda c: [("as many shards as fit", z3.And(rows(c)[0] >= 0, rows(c)[0] <= SIZE))]
    B = lambda c, v: c.ex.as_bool(v)

    def seq_post(c):
        n, g = rows(c)
        r, s, e = B(c, c.ret), out(c, "start"), out(c, "end")
        return [("a range of the list", z3.Implies(r, z3.And(s >= 0, e < n))), ("three or more", z3.Implies(r, e - s >= 2)),
                ("all of it marked", z3.Implies(r, forall([i], z3.Implies(z3.And(i >= s, i <= e), B(c, g(i))), [g(i)]))),
                ("none is left out", z3.Implies(z3.Not(r), forall([i], z3.Implies(z3.And(i >= 0, i + 2 < n), z3.Not(z3.And(B(c, g(i)), B(c, g(i + 1)), B(c, g(i + 2))))), [g(i)])))]

    def seq_inv(c, lc):
        n, g = rows(c)
        o = []
        ints = [(nm, f) for nm, f in lc.ints() if lc.modified(nm)]
        run = lambda s, m: forall([i], z3.Implies(z3.And(i >= s, i < s + m), B(c, g(i))), [g(i)])
        for n1, f1 in ints:
            o.append(("%s in range" % n1, lambda st, f1=f1: z3.And(f1(st) >= 0, f1(st) <= n)))
            for n2, f2 in ints:
                if n1 == n2:
                    continue
                o.append(("%s marked from %s on" % (n2, n1), lambda st, f1=f1, f2=f2: z3.And(f1(st) + f2(st) <= n, run(f1(st), f2(st)))))
                o.append(("%s marked up to %s" % (n2, n1), lambda st, f1=f1, f2=f2: z3.And(f2(st) <= f1(st), run(f1(st) - f2(st), f2(st)))))
                for n3, f3 in ints:
                    if n3 not in (n1, n2):
                        o.append(("%s is %s+%s" % (n3, n1, n2), lambda st, f1=f1, f2=f2, f3=f3: z3.Or(f2(st) == 0, f3(st) == f1(st) + f2(st))))
                        # n1: position, n2: current run, n3: best run
                        o.append(("no run of three before %s but %s, %s" % (n1, n2, n3), lambda st, f1=f1, f2=f2, f3=f3: z3.And(
                            z3.Or(f3(st) == 0, f3(st) >= 3),
                            z3.Implies(f3(st) == 0, forall([i], z3.Implies(z3.And(i >= 0, i + 2 < f1(st), i < f1(st) - f2(st)), z3.Not(z3.And(B(c, g(i)), B(c, g(i + 1)), B(c, g(i + 2))))), [g(i)])),
                            z3.Or(f2(st) == f1(st), z3.Not(B(c, g(f1(st) - f2(st) - 1)))))))
        return o
    seq = Contract(C + "find_sequence", ["a", "start", "end"], pre=big, post=seq_post, inv=seq_inv, ret=BOOL, mods=lambda c: [c.loc("start"), c.loc("end")])

    def pair_post(c):
        n, g = rows(c)
        r, s, e = B(c, c.ret), out(c, "start"), out(c, "end")
        ok = lambda x: z3.And(g(x) >= 0, g(x + 1) >= 0)
        return [("two neighbours", z3.Implies(r, z3.And(s >= 0, e == s + 1, e < n, ok(s)))),
                ("no lighter pair", z3.Implies(r, forall([i], z3.Implies(z3.And(i >= 0, i + 1 < n, ok(i)), g(s) + g(s + 1) <= g(i) + g(i + 1)), [g(i)]))),
                ("none is left out", z3.Implies(z3.Not(r), forall([i], z3.Implies(z3.And(i >= 0, i + 1 < n), z3.Not(ok(i))), [g(i)])))]

    def pair_inv(c, lc):
        n, g = rows(c)
        o = []
        ok = lambda x: z3.And(g(x) >= 0, g(x + 1) >= 0)
        ints = [(nm, f) for nm, f in lc.ints() if lc.modified(nm)]
        for nb, fb in lc.bools():
            for n1, f1 in ints:
                o.append(("%s in range" % n1, lambda st, f1=f1: z3.And(f1(st) >= 0, f1(st) < n)))
                o.append(("none before %s unless %s" % (n1, nb), lambda st, f1=f1, fb=fb: z3.Implies(z3.Not(fb(st)), forall([i], z3.Implies(z3.And(i >= 0, i < f1(st)), z3.Not(ok(i))), [g(i)]))))
                for n2, f2 in ints:
                    if n1 == n2:
                        continue
                    o.append(("%s: %s is the sum at %s" % (nb, n2, n1), lambda st, f1=f1, f2=f2, fb=fb: z3.Implies(fb(st), z3.And(f1(st) >= 0, f1(st) + 1 < n, ok(f1(st)), f2(st) == g(f1(st)) + g(f1(st) + 1)))))
                    o.append(("%s: %s is least before %s" % (nb, n2, n1), lambda st, f1=f1, f2=f2, fb=fb: z3.Implies(fb(st), forall([i], z3.Implies(z3.And(i >= 0, i < f1(st), ok(i)), f2(st) <= g(i) + g(i + 1)), [g(i)]))))
        return o
    pair = Contract(C + "find_smallest_pair", ["a", "start", "end"], pre=lambda c: big(c) + [("sizes of files", forall([i], z3.Implies(z3.And(i >= 0, i < rows(c)[0]), rows(c)[1](i) < (1 << 62)), [rows(c)[1](i)]))], post=pair_post, inv=pair_inv, ret=BOOL,
                    mods=lambda c: [c.loc("start"), c.loc("end")])
    return seq, pair


def locate():
    def rows(c):
        d = c.at(c.pre, "directory")
        return d.d["len"], (lambda x: z3.Select(d.d["data"].d["feature"], x))

    def post(c):
        n, g = rows(c)
        r, x = c.ex.as_bool(c.ret), c.at(c.post, "index")
        return [("the entry of that feature", z3.Implies(r, z3.And(x >= 0, x < n, g(x) == c["feature"]))),
                ("none if there is none", z3.Implies(z3.Not(r), forall([i], z3.Implies(z3.And(i >= 0, i < n), g(i) != c["feature"]), [g(i)])))]
    return Contract(C + "locate_posting", ["directory", "feature", "index"], ret=BOOL, mods=lambda c: [c.loc("index")], post=post,
                    pre=lambda c: [("in order of features", z3.And(rows(c)[0] >= 0, rows(c)[0] <= SIZE, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < rows(c)[0]), rows(c)[1](i) < rows(c)[1](j)), patterns=[z3.MultiPattern(rows(c)[1](i), rows(c)[1](j))])))])


def chunk():
    """the chunk of the text a byte is in"""
    def rows(c):
        d = c.fld(c.pre, "map_")
        return d.d["len"], (lambda x: z3.Select(d.d["data"].d["raw_byte_end"], x))

    def post(c):
        n, g = rows(c)
        x, k = c.ret, c["raw_byte"]
        return [("a chunk there is", z3.And(x >= 0, x < n)), ("it ends behind the byte, or at the end of the text", z3.Or(k < g(x), z3.And(k == c.fld(c.pre, "raw_text_length_"), x == n - 1))),
                ("the one before it does not", z3.Or(x == 0, g(x - 1) <= k))]
    return Contract(C + "HazelTxt::chunk_containing", ["raw_byte"], ret=("int", 64, False), post=post, pre=lambda c: [
        ("one after the other", z3.And(rows(c)[0] > 0, rows(c)[0] <= SIZE, z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < rows(c)[0]), rows(c)[1](i) < rows(c)[1](j)), patterns=[z3.MultiPattern(rows(c)[1](i), rows(c)[1](j))]))),
        ("the last one ends with the text", rows(c)[1](rows(c)[0] - 1) == c.fld(c.pre, "raw_text_length_")), ("a byte of the text, or its end", z3.And(c["raw_byte"] >= 0, c["raw_byte"] <= c.fld(c.pre, "raw_text_length_")))])
