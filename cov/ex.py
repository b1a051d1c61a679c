"""Deductive verification of C++ functions: symbolic execution of the real
AST, callee contracts at calls, invariants at loop heads, SMT obligations."""
import re, time
import z3
from . import smt
from .cast import body_of, params_of, line_str
from .types_ import (Rec, Unsupported, parse_type, tmap, tmap2, is_z3, INT, arr_of, I64_MAX, I64_MIN, leaves_of)

TWO = [1 << i for i in range(65)]
MAXLEN = 1 << 60


DBG = bool(__import__('os').environ.get('COV_DBG'))


def tmap_named(f, v, pre=""):
    """tmap, the leaf's path given too: every leaf gets a name of its own"""
    if isinstance(v, Rec):
        return Rec(v.t, {k: tmap_named(f, x, pre + "." + k) for k, x in v.d.items()})
    return f(pre, v)


def sel(a, i):
    """a[i], seeing through a write at the very same index"""
    if z3.is_app_of(a, z3.Z3_OP_STORE) and a.arg(1).eq(i):
        return a.arg(2)
    return z3.Select(a, i)


def lowzeros(t):
    """number of low bits of the term that are certainly zero"""
    if z3.is_int_value(t):
        v = t.as_long()
        return 64 if v == 0 else ((v & -v).bit_length() - 1)
    if z3.is_mul(t):
        return sum(lowzeros(x) for x in t.children())
    if z3.is_add(t):
        return min(lowzeros(x) for x in t.children())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return min(lowzeros(x) for x in t.children()[1:])
    return 0


V64 = z3.Function("v64", INT, INT)  # a byte block seen as 64-bit words


class PathEnd(Exception):
    pass


class NeedFork(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Loc:
    __slots__ = ("root", "path", "t")

    def __init__(self, root, path, t):
        self.root, self.path, self.t = root, path, t

    def f(self, name, t):
        return Loc(self.root, self.path + (("f", name),), t)

    def i(self, idx, t):
        return Loc(self.root, self.path + (("i", idx),), t)

    def __repr__(self):
        return "Loc(%s,%s)" % (self.root, self.path)


class PVar:  # pointer to a known lvalue
    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class PElem:  # pointer into a known array-like lvalue
    __slots__ = ("loc", "idx", "t")

    def __init__(self, loc, idx, t):
        self.loc, self.idx, self.t = loc, idx, t


class PMem:  # pointer into block memory
    __slots__ = ("t", "blk", "off", "view")

    def __init__(self, t, blk, off, view=None):
        self.t, self.blk, self.off, self.view = t, blk, off, view


class Null:
    pass


NULL = Null()


class It:  # iterator into a vector / string
    __slots__ = ("loc", "idx", "t")

    def __init__(self, loc, idx, t):
        self.loc, self.idx, self.t = loc, idx, t


class Closure:
    def __init__(self, node, frame, this):
        self.node, self.frame, self.this = node, frame, this


class FuncRef:
    def __init__(self, node, q):
        self.node, self.q = node, q


class Opaque:
    """A value the proofs never inspect (error text, streams, ...)."""

    def __init__(self, what="", t=None):
        self.what = what
        self.t = t


class State:
    def __init__(self):
        self.cells, self.heap, self.mem = {}, {}, {}
        self.pc, self.known, self.frames = [], set(), []
        self.alloc = None
        self.ghost = {}

    def clone(self):
        s = State()
        s.cells, s.heap, s.mem = dict(self.cells), dict(self.heap), dict(self.mem)
        s.pc, s.known = list(self.pc), set(self.known)
        s.frames = [dict(f) for f in self.frames]
        s.alloc = self.alloc
        s.ghost = dict(self.ghost)
        return s


class Result:
    def __init__(self, kind, name, where, verdict, backend, detail=None):
        self.kind, self.name, self.where, self.verdict, self.backend, self.detail = kind, name, where, verdict, backend, detail

    def js(self):
        return {"kind": self.kind, "obligation": self.name, "where": self.where, "verdict": self.verdict,
                "backend": self.backend, "detail": self.detail}


def in_range(t, x):
    if t[0] == "int":
        bits, sg = t[1], t[2]
        lo, hi = (-TWO[bits - 1], TWO[bits - 1] - 1) if sg else (0, TWO[bits] - 1)
        return z3.And(x >= lo, x <= hi)
    return None


def rng(t):
    bits, sg = t[1], t[2]
    return (-TWO[bits - 1], TWO[bits - 1] - 1) if sg else (0, TWO[bits] - 1)


class Exec:
    def __init__(self, tu, contracts, opts=None):
        self.tu = tu
        self.contracts = contracts
        self.opts = opts or {}
        self.results = []
        self.mode = "real"
        self.trace, self.pos, self.pending = [], 0, []
        self.celltype = {}
        self.cellname = {}
        self.writes = None
        self.spec = None
        self.counter = 0
        self.cellctr = 0
        self.houdini_cache = {}
        self.paths = 0
        self.dry_paths = 0
        self.inlined = set()
        self.calls = {}
        self.trusted = set()
        self.fname = "?"
        self.curnode = None
        self.depth = 0
        self.heap_init = {}
        self.loops = {}  # cut loop -> some path leaves it
        self.max_paths = self.opts.get("max_paths", 4000)
        self.deadline = self.opts.get("deadline")
        self.inv_gen = None
        self.cx = None
        self.builtins = {}
        from . import stl
        stl.register(self)

    # ---------------------------------------------------------------- types
    def resolve(self, s):
        s = s.strip().replace("(anonymous namespace)::", "").replace("(anonymous)::", "")
        if s in self.tu.classes:
            return s
        cands = [c for c in self.tu.classes if c.endswith("::" + s) or s.endswith("::" + c)]
        if cands:
            cands.sort(key=len)
            return cands[0]
        if s in self.tu.typedefs:
            return None
        return None

    _tc = {}

    def ty(self, node):
        t = node.get("type", {})
        s = t.get("desugaredQualType") or t.get("qualType") or "void"
        r = self.tys(s, t.get("qualType"))
        if r[0] in ("ptr", "ref") and r[1][0] == "opaque":
            r = self.smart(node, r)
        return r

    def smart(self, node, r):
        """what a smart pointer's -> * or get() yields is named by a dependent type: take the pointer's own"""
        n = node
        while n.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups"):
            n = n["inner"][0]
        ins = n.get("inner") or []
        a = None
        if n.get("kind") == "CXXOperatorCallExpr" and len(ins) == 2:
            a = ins[1]
        elif n.get("kind") == "CXXMemberCallExpr" and len(ins) == 1 and ins[0].get("kind") == "MemberExpr" and ins[0].get("name") == "get":
            a = ins[0]["inner"][0]
        if a is not None:
            while a.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
                a = a["inner"][0]
            ta = self.ty(a)
            ta = ta[1] if ta[0] == "ref" else ta
            if ta[0] == "ptr":
                return ta if r[0] == "ptr" else ("ref", ta[1])
        return r

    def tys(self, s, alt=None):
        k = (id(self.tu), s, alt)
        r = self._tc.get(k)
        if r is None:
            r = parse_type(s, self.resolve)
            if r[0] == "opaque" and alt:
                r2 = parse_type(alt, self.resolve)
                if r2[0] != "opaque":
                    r = r2
            if r[0] == "opaque" and s in self.tu.typedefs and self.tu.typedefs[s] != s:
                r = self.tys(self.tu.typedefs[s])
            self._tc[k] = r
        return r

    def fields(self, cls):
        """all (owner, name, type) of a class, bases first"""
        key = ("fields", cls)
        if key in self._tc:
            return self._tc[key]
        n = self.tu.classes.get(cls)
        if n is None:
            raise Unsupported("unknown class " + str(cls))
        out = []
        for b in n.get("bases", []):
            bt = b["type"].get("desugaredQualType") or b["type"]["qualType"]
            bq = self.resolve(bt)
            if bq:
                out += self.fields(bq)
        for c in n.get("inner", []):
            if c.get("kind") == "FieldDecl":
                out.append((cls, c.get("name"), self.ty(c), c))
        self._tc[key] = out
        return out

    def owner(self, cls, fname):
        for o, n, t, _ in reversed(self.fields(cls)):  # the most derived declaration hides the others
            if n == fname:
                return o, t
        raise Unsupported("no field %s in %s" % (fname, cls))

    def is_sub(self, cls, base):
        if cls == base:
            return True
        n = self.tu.classes.get(cls)
        if not n:
            return False
        for b in n.get("bases", []):
            bq = self.resolve(b["type"].get("desugaredQualType") or b["type"]["qualType"])
            if bq and self.is_sub(bq, base):
                return True
        return False

    # ------------------------------------------------------------ symbolics
    def name(self, hint):
        self.counter += 1
        return "%s!%d" % (hint, self.counter)

    def shape(self, t, depth=0):
        """value tree of sorts"""
        k = t[0]
        if depth > 6:
            raise Unsupported("type too deep")
        if k in ("int", "fval"):
            return INT
        if k == "bool":
            return z3.BoolSort()
        if k == "ptr":
            if t[1][0] in ("cls", "opaque", "vec", "str", "map", "void", "set", "pair"):
                return INT
            return Rec(t, {"blk": INT, "off": INT})
        if k == "cls":
            return Rec(t, {n: self.shape(ft, depth + 1) for _, n, ft, _ in self.fields(t[1])})
        if k in ("vec", "arr", "pq"):
            return Rec(t, {"len": INT, "data": tmap(arr_of, self.shape(t[1], depth + 1))})
        if k == "str":
            return Rec(t, {"len": INT, "data": arr_of(INT)})
        if k == "pair":
            return Rec(t, {"first": self.shape(t[1], depth + 1), "second": self.shape(t[2], depth + 1)})
        if k == "set":
            e = self.shape(t[1], depth + 1)
            if isinstance(e, Rec):
                return INT
            return Rec(t, {"has": z3.ArraySort(e, z3.BoolSort()), "size": INT})
        if k == "map":
            e = self.shape(t[1], depth + 1)
            if isinstance(e, Rec):
                return INT
            return Rec(t, {"has": z3.ArraySort(e, z3.BoolSort()), "size": INT,
                           "data": tmap(lambda s: z3.ArraySort(e, s), self.shape(t[2], depth + 1))})
        if k in ("opaque", "null", "void"):
            return INT
        if k == "iter":
            return Rec(t, {"blk": INT, "off": INT})
        raise Unsupported("shape of %s" % (t,))

    def fresh(self, t, hint="v"):
        if t[0] == "ref":
            t = t[1]
        v = tmap(lambda s: z3.Const(self.name(hint), s), self.shape(t))
        if t[0] == "ptr" and isinstance(v, Rec):
            v = PMem(t[1], v.d["blk"], v.d["off"])
            return v
        self.typefacts(t, v)
        return v

    def typefacts(self, t, v):
        """facts every value of the type satisfies (machine ranges, lengths)"""
        st = self.st
        k = t[0]
        if k in ("int", "fval"):
            if not is_z3(v) or z3.is_int_value(v):
                return
            i = v.get_id()
            if i in st.known:
                return
            st.known.add(i)
            self.keep(v)
            st.pc.append(in_range(t if k == "int" else ("int", 64, True), v))
        elif k == "ptr":
            if is_z3(v) and not z3.is_int_value(v):
                i = v.get_id()
                if i in st.known:
                    return
                st.known.add(i)
                self.keep(v)
                st.pc.append(z3.And(v >= 0, v < st.alloc))
        elif k in ("vec", "str", "arr", "pq"):
            l = v.d["len"]
            if z3.is_int_value(l):
                return
            i = l.get_id()
            if i in st.known:
                return
            st.known.add(i)
            self.keep(l)
            st.pc.append(z3.And(l >= 0, l <= MAXLEN))
        elif k == "cls":
            for _, n, ft, _ in self.fields(t[1]):
                if n in v.d and ft[0] in ("int", "fval", "vec", "str"):
                    self.typefacts(ft, v.d[n])
        elif k == "pair":
            self.typefacts(t[1], v.d["first"])
            self.typefacts(t[2], v.d["second"])

    _keep = []

    def keep(self, v):
        self._keep.append(v)  # ids stay unique while the term is alive

    # ---------------------------------------------------------------- state
    def new_cell(self, t, v, name=""):
        self.cellctr += 1
        c = self.cellctr
        self.st.cells[c] = v
        self.celltype[c] = t
        self.cellname[c] = name
        return Loc(("cell", c), (), t)

    def heapmap(self, st, cls, fname):
        k = (cls, fname)
        if k not in st.heap:
            if k not in self.heap_init:
                _, t = self.owner(cls, fname)
                self.heap_init[k] = tmap_named(lambda p, s: z3.Const("H.%s.%s%s" % (cls.split("::")[-1], fname, p) + "!0", arr_of(s)),
                                               self._hshape(t))
            st.heap[k] = self.heap_init[k]
        return st.heap[k]

    def _hshape(self, t):
        try:
            return self.shape(t)
        except Unsupported:
            return INT

    def memmap(self, st, t):
        k = str(t)
        if k not in st.mem:
            if ("mem", k) not in self.heap_init:
                self.heap_init[("mem", k)] = tmap_named(
                    lambda p, s: z3.Const("M.%s%s!0" % (k.replace(" ", ""), p), arr_of(arr_of(s))), self.shape(t))
            st.mem[k] = self.heap_init[("mem", k)]
        return st.mem[k]

    def root_get(self, st, root):
        k = root[0]
        if k == "cell":
            if root[1] not in st.cells:
                raise Unsupported("dead cell")
            return st.cells[root[1]]
        if k == "heap":
            return tmap(lambda a: sel(a, root[3]), self.heapmap(st, root[1], root[2]))
        if k == "mem":
            return Rec(("arr", root[3]), {"len": z3.IntVal(0), "data": tmap(lambda a: sel(a, root[2]), self.memmap(st, root[3]))})
        raise Unsupported("root " + str(root))

    def fixptr(self, t, v):
        if t[0] == "ptr" and isinstance(v, Rec):
            return PMem(t[1], v.d["blk"], v.d["off"])
        return v

    def unfix(self, t, v):
        """value -> storable tree"""
        if isinstance(v, PMem):
            return Rec(("ptr", v.t), {"blk": v.blk, "off": v.off})
        if v is NULL:
            if t[0] == "ptr" and t[1][0] in ("int", "fval", "bool", "ptr"):
                return Rec(t, {"blk": z3.IntVal(0), "off": z3.IntVal(0)})
            return z3.IntVal(0)
        return v

    def read(self, loc, st=None, facts=True):
        st = st or self.st
        if loc.root[0] == "obj":
            if not loc.path:
                cls, ref = loc.root[1], loc.root[2]
                return Rec(("cls", cls), {n: self.unfix(ft, self.read(self.field(loc, n), st)) for _, n, ft, _ in self.fields(cls)})
            raise Unsupported("obj path")
        v = self.root_get(st, loc.root)
        for p in loc.path:
            if p[0] == "f":
                if not isinstance(v, Rec):
                    raise Unsupported("field %s of non-record" % p[1])
                if p[1] not in v.d:
                    raise Unsupported("no member " + p[1])
                v = v.d[p[1]]
            else:
                if not isinstance(v, Rec):
                    raise Unsupported("index of non-array")
                v = tmap(lambda a: sel(a, p[1]), v.d["data"])
        if st is self.st and loc.t and facts and self._facty(v):
            self.typefacts(loc.t, v)
        if loc.t:
            v = self.fixptr(loc.t, v)
        return v

    def _facty(self, v):
        return is_z3(v) or isinstance(v, Rec)

    def write(self, loc, v, st=None):
        st = st or self.st
        if loc.root[0] == "obj":
            if loc.path:
                raise Unsupported("obj path write")
            for _, n, ft, _ in self.fields(loc.root[1]):
                self.write(self.field(loc, n), v.d[n])
            return
        if self.spec is not None and not (loc.root[0] == "cell" and loc.root[1] > self.spec):
            raise NeedFork()
        if self.writes is not None:
            self.writes.add((loc.root, tuple(p[1] if p[0] == "f" else "*" for p in loc.path)) if loc.root[0] == "cell"
                            else (loc.root, ()))
            if loc.root[0] == "cell" and not loc.path and isinstance(v, PMem):
                w = st.cells.get(loc.root[1])
                if not (isinstance(w, PMem) and w.blk.eq(v.blk)):
                    self.writes.add((("blk", loc.root[1]), ()))
        if loc.t:
            v = self.unfix(loc.t, v) if (loc.root[0] != "cell" or loc.path) else v
        v = self.coerce(loc.t, v) if loc.t else v
        old = self.root_get(st, loc.root) if loc.path else None
        nv = self._upd(old, loc.path, v)
        k = loc.root[0]
        if k == "cell":
            st.cells[loc.root[1]] = nv
        elif k == "heap":
            m = self.heapmap(st, loc.root[1], loc.root[2])
            st.heap[(loc.root[1], loc.root[2])] = tmap2(lambda a, x: z3.Store(a, loc.root[3], self._z(x)), m, self.match(m, nv))
        elif k == "mem":
            m = self.memmap(st, loc.root[3])
            st.mem[str(loc.root[3])] = tmap2(lambda a, x: z3.Store(a, loc.root[2], x), m, nv.d["data"])

    def match(self, m, v):
        return v

    def _z(self, x):
        if is_z3(x):
            return x
        if isinstance(x, Opaque):
            return z3.Const(self.name("opq"), INT)
        if x is NULL:
            return z3.IntVal(0)
        raise Unsupported("cannot store %r" % (x,))

    def coerce(self, t, v):
        return v

    def _upd(self, old, path, v):
        if not path:
            return v
        p = path[0]
        if p[0] == "f":
            if len(path) == 1:
                sub = v
            else:
                sub = self._upd(old.d[p[1]], path[1:], v)
            return old.set(p[1], sub)
        data = old.d["data"]
        if len(path) == 1:
            nv = v
        else:
            nv = self._upd(tmap(lambda a: z3.Select(a, p[1]), data), path[1:], v)
        return old.set("data", tmap2(lambda a, x: z3.Store(a, p[1], self._z(x)), data, nv))

    def field(self, loc, fname):
        t = loc.t
        if loc.root[0] == "obj" and not loc.path:
            o, ft = self.owner(loc.root[1], fname)
            return Loc(("heap", o, fname, loc.root[2]), (), ft)
        if t and t[0] == "cls":
            _, ft = self.owner(t[1], fname)
        elif t and t[0] == "pair":
            ft = t[1] if fname == "first" else t[2]
        else:
            raise Unsupported("field %s of %s" % (fname, t))
        return loc.f(fname, ft)

    def obj(self, ref, cls):
        return Loc(("obj", cls, ref), (), ("cls", cls))

    def deref(self, v, t=None, node=None):
        """pointer value -> Loc"""
        if isinstance(v, PVar):
            return v.loc
        if isinstance(v, PElem):
            return v.loc.i(v.idx, v.t)
        if isinstance(v, PMem):
            return Loc(("mem", str(v.t), v.blk, v.t), (("i", v.off),), v.t)
        if isinstance(v, It):
            return v.loc.i(v.idx, v.t)
        if v is NULL:
            if self.mode == "collect":
                raise Unsupported("null in the body of a loop")
            self.oblige("null-deref", z3.BoolVal(False), "null pointer dereference")
            raise PathEnd()
        if is_z3(v) and t and t[0] == "ptr":
            if t[1][0] == "cls":
                self.oblige("null-deref", v != 0, "pointer is not null")
                return self.obj(v, t[1][1])
            if t[1][0] in ("vec", "str", "map", "set", "pair"):
                self.oblige("null-deref", v != 0, "pointer is not null")
                return Loc(("mem", str(t[1]), v, t[1]), (("i", z3.IntVal(0)),), t[1])
        if isinstance(v, Opaque):
            return self.new_cell(None, Opaque("deref"), "opaque")
        raise Unsupported("deref of %r : %s" % (v, t))

    # ------------------------------------------------------------- branching
    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.mode == "collect":
            return True
        if self.spec is not None:
            if not smt.feasible(self.st.pc + [c]):
                return False
            if not smt.feasible(self.st.pc + [z3.Not(c)]):
                return True
            raise NeedFork()
        if self.pos < len(self.trace):
            r = self.trace[self.pos]
            self.pos += 1
            self.st.pc.append(c if r else z3.Not(c))
            return r
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget for this function exhausted")
        ft = smt.feasible(self.st.pc + [c])
        ff = smt.feasible(self.st.pc + [z3.Not(c)]) if ft else True
        if ft and ff:
            self.pending.append(self.trace[:self.pos] + [False])
            r = True
        else:
            r = ft
        self.trace = self.trace[:self.pos] + [r]
        self.pos += 1
        self.st.pc.append(c if r else z3.Not(c))
        return r

    def explore(self, fn, limit=None):
        """run fn on every path from the current state; fn sees self.st"""
        saved = (self.trace, self.pos, self.pending, self.st, self.counter, self.cellctr)
        stack = [[]]
        n = 0
        try:
            while stack:
                self.trace = stack.pop()
                self.pos = 0
                self.pending = []
                self.st = saved[3].clone()
                self.counter, self.cellctr = saved[4], saved[5]
                n += 1
                if n > (limit or self.max_paths):
                    raise Unsupported("more than %d paths" % (limit or self.max_paths))
                try:
                    fn()
                except PathEnd:
                    pass
                stack.extend(self.pending)
        finally:
            self.trace, self.pos, self.pending, self.st, self.counter, self.cellctr = saved
        return n

    def assume(self, f):
        if is_z3(f) and not z3.is_true(f):
            self.st.pc.append(f)

    def oblige(self, kind, goal, name, model_terms=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.mode == "collect":
            return
        g = z3.simplify(goal)
        if z3.is_true(g):
            if self.mode == "real":
                self.results.append(Result(kind, name, self.where(), "proved", "simplify"))
            return
        if self.mode == "real":
            fast = kind == "overflow" or kind == "bounds"
            v, be, m = smt.prove(self.st.pc, goal)
            det = None
            if v != "proved":
                det = self.describe(m, goal)
            self.results.append(Result(kind, name, self.where(), v, be, det))
            if v != "proved" and self.opts.get("stop_on_fail"):
                raise PathEnd()
        self.st.pc.append(goal)

    def describe(self, m, goal):
        out = {"goal": str(z3.simplify(goal))[:400]}
        if m is not None:
            try:
                vals = {}
                for d in m.decls():
                    if d.arity() == 0 and d.range() in (z3.IntSort(), z3.BoolSort()):
                        vals[d.name()] = str(m[d])
                out["model"] = dict(sorted(vals.items())[:60])
            except Exception:
                pass
        return out

    def where(self):
        return self.fname + " @ " + (line_str(self.curnode, self.tu.rel) if self.curnode else "?")

    # ---------------------------------------------------------- statements
    def exec_body(self, node):
        self.stmt(node)

    def stmt(self, n):
        k = n.get("kind")
        m = getattr(self, "s_" + k, None)
        if k != "CompoundStmt":
            self.curnode = n if n.get("_line") and n["_line"][1] else self.curnode
        if m:
            return m(n)
        if k.endswith("Expr") or k.endswith("Operator") or k in ("ExprWithCleanups", "CXXMemberCallExpr", "IntegerLiteral"):
            self.ev(n, discard=True)
            return
        raise Unsupported("statement " + k)

    def leave(self, before):
        """variables of a block end with it"""
        f = self.frame()
        for k in [k for k in f if k not in before]:
            del f[k]

    def s_CompoundStmt(self, n):
        before = set(self.frame())
        held = self.frame().get("$guards", ())
        try:
            for c in n.get("inner", []):
                self.stmt(c)
        except (ReturnEx, BreakEx, ContinueEx):
            self.unguard(held)
            raise
        self.unguard(held)
        self.leave(before)

    def unguard(self, held):
        """locks held by guards of a block are released when it is left"""
        now = self.frame().get("$guards", ())
        for l in reversed(now[len(held):]):
            self.unlock(l)
        if now:
            self.frame()["$guards"] = held

    def lock(self, l):
        """what the lock guards may have been changed by others before it is taken"""
        self.oblige("lock", self.read(l) == 0, "lock is not already held")
        self.write(l, z3.IntVal(1))
        g = self.opts.get("guarded", {}).get((l.root[1], l.root[2])) if l.root[0] == "heap" else None
        if g:
            o = self.obj(l.root[3], l.root[1])
            for f in g["fields"]:
                x = self.field(o, f)
                w = self.writes
                self.writes = set()  # the others' writes
                self.write(x, self.fresh(x.t, f))
                self.writes = w
            for nm, fo in g["inv"](self, self.st, l.root[3]):
                self.assume(fo)
            if self.mode != "collect":
                self.st.ghost["at"] = self.st.clone()

    def unlock(self, l):
        self.oblige("lock", self.read(l) == 1, "lock is held when released")
        g = self.opts.get("guarded", {}).get((l.root[1], l.root[2])) if l.root[0] == "heap" else None
        if g:
            for nm, fo in g["inv"](self, self.st, l.root[3]):
                if nm.startswith("limit: "):
                    continue  # a bound of the machine, listed under assumptions
                self.oblige("lock", fo, "shared state when the lock is released: " + nm)
            if self.mode != "collect":
                at = self.st.ghost.pop("at", None)
                self.st.ghost["sections"] = self.st.ghost.get("sections", ()) + ((l.root, at, self.st.clone()),)
        self.write(l, z3.IntVal(0))

    def guard(self, c):
        """declaration of a scoped lock"""
        init = [x for x in c.get("inner", []) if x.get("kind") == "CXXConstructExpr"]
        a = [x for x in (init[0].get("inner", []) if init else []) if x.get("kind") != "CXXDefaultArgExpr"]
        if len(a) != 1:
            raise Unsupported("lock guard")
        l = self.lv(a[0])
        self.lock(l)
        self.frame()["$guards"] = self.frame().get("$guards", ()) + (l,)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for c in n.get("inner", []):
            if c["kind"] == "VarDecl":
                self.declare(c)
            elif c["kind"] in ("CXXRecordDecl", "TypedefDecl", "UsingDecl", "StaticAssertDecl", "TypeAliasDecl", "UsingDirectiveDecl"):
                pass
            elif c["kind"] == "DecompositionDecl":
                self.decomp(c)
            else:
                raise Unsupported("decl " + c["kind"])

    def decomp(self, c):
        raise Unsupported("structured binding")

    def frame(self):
        return self.st.frames[-1]

    def bind(self, declid, loc):
        self.frame()[declid] = loc

    def declare(self, c):
        if c.get("storageClass") == "static":
            raise Unsupported("static local")
        t = self.ty(c)
        if self.opts.get("mutex") and t[0] == "opaque" and any(z in t[1] for z in ("lock_guard", "unique_lock", "scoped_lock")):
            return self.guard(c)
        init = [x for x in c.get("inner", []) if x.get("kind") and not x["kind"].endswith("Attr") and x["kind"] != "FullComment"]
        if t[0] == "ref":
            loc = self.lv(init[0])
            self.bind(c["id"], loc)
            return
        if init:
            v = self.init_value(init[0], t)
        else:
            v = self.default_value(t, c.get("name", "v"))
        self.bind(c["id"], self.new_cell(t, v, c.get("name", "")))

    def init_value(self, n, t):
        v = self.ev(n)
        if isinstance(v, Loc):
            v = self.read(v)
        if isinstance(v, Rec) and t[0] == "arr" and v.t[0] == "str":
            return v
        return v

    def default_value(self, t, name):
        """uninitialised storage: arbitrary value"""
        if t[0] == "vec" or t[0] == "pq":
            return self.empty_vec(t)
        if t[0] == "str":
            return self.const_str(b"")
        if t[0] == "arr" and t[2] is not None:
            v = self.fresh_noassume(t, name)
            return v.set("len", z3.IntVal(t[2]))
        if t[0] == "ptr":
            return NULL if False else self.fresh_noassume(t, name)
        if t[0] in ("opaque",):
            return Opaque(t[1], t)
        if t[0] == "iter":
            return Opaque("iter", t)
        return self.fresh(t, name)

    def fresh_noassume(self, t, name):
        v = tmap(lambda s: z3.Const(self.name(name), s), self.shape(t))
        return self.fixptr(t, v)

    def empty_vec(self, t):
        v = self.fresh_noassume(t, "vec")
        return v.set("len", z3.IntVal(0))

    def const_str(self, b):
        a = z3.K(INT, z3.IntVal(0))
        for i, ch in enumerate(b):
            a = z3.Store(a, i, ch - 256 if ch > 127 else ch)
        return Rec(("str",), {"len": z3.IntVal(len(b)), "data": a})

    def truth(self, n):
        v = self.ev(n)
        return self.as_bool(v)

    def as_bool(self, v):
        if isinstance(v, Loc):
            v = self.read(v)
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if v is NULL:
            return z3.BoolVal(False)
        if isinstance(v, (PVar, PElem, It)):
            return z3.BoolVal(True)
        if isinstance(v, PMem):
            return v.blk != 0
        if isinstance(v, Opaque):
            return z3.Const(self.name("opaque_bool"), z3.BoolSort())
        if z3.is_bool(v):
            return v
        return v != 0

    def s_IfStmt(self, n):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.stmt(inner.pop(0))
        if n.get("hasVar"):
            self.stmt(inner.pop(0))
        c = self.truth(inner[0])
        if self.mode == "collect":
            self.branch_collect(inner[1:])
            return
        if self.merge_if(c, inner):
            return
        if self.decide(c):
            self.stmt(inner[1])
        elif len(inner) > 2:
            self.stmt(inner[2])

    def branch_collect(self, stmts):
        for s in stmts:
            d = len(self.st.frames)
            try:
                self.stmt(s)
            except (ReturnEx, BreakEx, ContinueEx, PathEnd):
                while len(self.st.frames) > d:
                    self.st.frames.pop()

    def merge_if(self, c, inner):
        """merge both branches into one state when they are simple"""
        if not self.opts.get("merge", True) or self.spec is not None:
            return False
        c = z3.simplify(c)
        if z3.is_true(c) or z3.is_false(c):
            return False
        if not self.mergeable(inner[1]) or (len(inner) > 2 and not self.mergeable(inner[2])):
            return False
        base = self.st
        counter, cellctr, nres = self.counter, self.cellctr, len(self.results)
        mode_spec = self.spec
        saved_writes = self.writes
        outs = []
        try:
            for cond, s in ((c, inner[1]), (z3.Not(c), inner[2] if len(inner) > 2 else None)):
                self.st = base.clone()
                self.st.pc.append(cond)
                if s is not None:
                    if not smt.feasible(self.st.pc):
                        outs.append((cond, None))
                        continue
                    self.nofork += 1
                    self.merging += 1
                    nfr = len(self.st.frames)
                    try:
                        self.in_merge(s)
                    except PathEnd:
                        outs.append((cond, None))
                        continue
                    finally:
                        self.nofork -= 1
                        self.merging -= 1
                outs.append((cond, self.st))
            a, b = outs
            if a[1] is None and b[1] is None:
                raise PathEnd()
            if a[1] is None or b[1] is None:
                self.st = (a[1] or b[1])
                return True
            merged = self.merge_states(base, c, a[1], b[1])
            if merged is None:
                raise NeedFork()
            self.st = merged
            return True
        except NeedFork:
            self.st = base
            del self.results[nres:]
            self.counter, self.cellctr = counter, cellctr
            return False
        finally:
            pass

    def in_merge(self, s):
        # run s with forking forbidden; writes allowed (state is a private clone)
        dec = self.decide

        def nd(c):
            if isinstance(c, bool):
                return c
            c2 = z3.simplify(c)
            if z3.is_true(c2):
                return True
            if z3.is_false(c2):
                return False
            if not smt.feasible(self.st.pc + [c2]):
                return False
            if not smt.feasible(self.st.pc + [z3.Not(c2)]):
                return True
            raise NeedFork()
        self.decide = nd
        try:
            self.stmt(s)
        finally:
            self.decide = dec

    MERGE_KINDS = {"CompoundStmt", "DeclRefExpr", "BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "ImplicitCastExpr",
                   "IntegerLiteral", "CXXBoolLiteralExpr", "MemberExpr", "CXXThisExpr", "ParenExpr", "FloatingLiteral", "IfStmt",
                   "CXXOperatorCallExpr", "CXXMemberCallExpr", "CStyleCastExpr", "CXXStaticCastExpr", "ArraySubscriptExpr", "NullStmt",
                   "ConditionalOperator", "ExprWithCleanups", "MaterializeTemporaryExpr", "CharacterLiteral", "ConstantExpr",
                   "CXXFunctionalCastExpr", "CallExpr", "DeclStmt", "VarDecl", "CXXNullPtrLiteralExpr", "ParmVarDecl"}

    def mergeable(self, s):
        if "_merge" in s:
            return s["_merge"]
        ok = True
        st = [s]
        while st:
            x = st.pop()
            if x.get("kind") and x["kind"] not in self.MERGE_KINDS:
                ok = False
                break
            st.extend(c for c in x.get("inner", []) if c)
        s["_merge"] = ok
        return ok

    def merge_states(self, base, c, a, b):
        nb = len(base.pc)
        m = base.clone()
        try:
            for cid in base.cells:
                va, vb = a.cells.get(cid), b.cells.get(cid)
                if va is vb:
                    m.cells[cid] = va
                else:
                    m.cells[cid] = self.ite(c, va, vb)
            for d_a, d_b, d_m, get in ((a.heap, b.heap, m.heap, "h"), (a.mem, b.mem, m.mem, "m")):
                for k in set(d_a) | set(d_b):
                    va = d_a.get(k, self.heap_init.get(k if get == "h" else ("mem", k)))
                    vb = d_b.get(k, self.heap_init.get(k if get == "h" else ("mem", k)))
                    d_m[k] = va if va is vb else self.ite(c, va, vb)
            for k in set(a.ghost) | set(b.ghost):
                va, vb = a.ghost.get(k), b.ghost.get(k)
                m.ghost[k] = va if va is vb else self.ite(c, va, vb)
        except (Unsupported, z3.Z3Exception, KeyError, AttributeError):
            return None
        if a.alloc is not b.alloc:
            m.alloc = z3.If(c, a.alloc, b.alloc)
        xa, xb = a.pc[nb + 1:], b.pc[nb + 1:]
        for cond, xs in ((c, xa), (z3.Not(c), xb)):
            for x in xs:
                m.pc.append(z3.Implies(cond, x))
        m.known = base.known
        return m

    def ite(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, It) and isinstance(b, It) and a.loc.root == b.loc.root and a.loc.path == b.loc.path:
            return It(a.loc, z3.If(c, a.idx, b.idx), a.t)
        if isinstance(a, PMem) and isinstance(b, PMem):
            return PMem(a.t, z3.If(c, a.blk, b.blk), z3.If(c, a.off, b.off))
        if isinstance(a, PElem) and isinstance(b, PElem) and a.loc.root == b.loc.root and a.loc.path == b.loc.path:
            return PElem(a.loc, z3.If(c, a.idx, b.idx), a.t)
        if isinstance(a, Rec):
            return tmap2(lambda x, y: x if x.eq(y) else z3.If(c, x, y), a, b)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a
        if is_z3(a) and is_z3(b):
            return a if a.eq(b) else z3.If(c, a, b)
        raise Unsupported("cannot merge")

    def s_ReturnStmt(self, n):
        inner = n.get("inner", [])
        if self.nofork:
            raise NeedFork()
        if not inner:
            raise ReturnEx(None)
        rt = self.rettype[-1] if self.rettype else None
        if rt and rt[0] == "ref":
            raise ReturnEx(self.lv(inner[0]))
        v = self.ev(inner[0])
        if isinstance(v, Loc):
            v = self.read(v)
        raise ReturnEx(v)

    def s_BreakStmt(self, n):
        if self.nofork:
            raise NeedFork()
        raise BreakEx()

    def s_ContinueStmt(self, n):
        if self.nofork:
            raise NeedFork()
        raise ContinueEx()

    def s_SwitchStmt(self, n):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.stmt(inner.pop(0))
        if n.get("hasVar"):
            self.stmt(inner.pop(0))
        v = self.ev(inner[0])
        if isinstance(v, Loc):
            v = self.read(v)
        items = []  # ('case', value)|('default',)|('stmt', node)

        def flat(s):
            if s["kind"] == "CaseStmt":
                cs = s["inner"]
                items.append(("case", cs[0]))
                flat(cs[-1])
            elif s["kind"] == "DefaultStmt":
                items.append(("default", None))
                flat(s["inner"][0])
            else:
                items.append(("stmt", s))
        for s in inner[1].get("inner", []):
            flat(s)
        if self.mode == "collect":
            for k, s in items:
                if k == "stmt":
                    self.branch_collect([s])
            return
        start = None
        default = None
        for i, (k, s) in enumerate(items):
            if k == "case":
                cv = self.ev(s)
                if z3.is_bool(v):
                    v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
                if self.decide(v == cv):
                    start = i
                    break
            elif k == "default":
                default = i
        if start is None:
            start = default
        if start is None:
            return
        try:
            for k, s in items[start:]:
                if k == "stmt":
                    self.stmt(s)
        except BreakEx:
            return

    # ---------------------------------------------------------------- loops
    def s_WhileStmt(self, n):
        inner = list(n["inner"])
        self.loop(n, inner[0], inner[-1], None)

    def s_DoStmt(self, n):
        inner = n["inner"]
        self.loop(n, inner[1], inner[0], None, do=True)

    def s_ForStmt(self, n):
        init, var, cond, inc, body = n["inner"]
        before = set(self.frame())
        if init and init.get("kind"):
            self.stmt(init)
        self.loop(n, cond if cond and cond.get("kind") else None, body, inc if inc and inc.get("kind") else None)
        self.leave(before)

    def s_CXXForRangeStmt(self, n):
        inner = n["inner"]
        rng_decl = None
        loopvar = None
        for c in inner:
            if c and c.get("kind") == "DeclStmt":
                d = c["inner"][0]
                if d.get("name") == "__range1" or (d.get("name") or "").startswith("__range"):
                    rng_decl = d
                elif not (d.get("name") or "").startswith("__"):
                    loopvar = d
        body = inner[-1]
        src = [x for x in rng_decl["inner"] if x.get("kind")][0]
        loc = self.lv(src)
        t = loc.t
        if t is None or t[0] not in ("vec", "str", "arr"):
            return self.range_other(n, loc, loopvar, body)
        et = ("int", 8, True) if t[0] == "str" else t[1]
        idx = self.new_cell(("int", 64, True), z3.IntVal(0), "__i")
        self.rangevars = getattr(self, "rangevars", {})
        ref = self.ty(loopvar)[0] == "ref"

        def cond():
            return self.read(idx) < self.read(loc.f("len", None), facts=False)

        def bodyf():
            i = self.read(idx)
            e = loc.i(i, et)
            if ref:
                self.bind(loopvar["id"], e)
            else:
                self.bind(loopvar["id"], self.new_cell(et, self.read(e), loopvar.get("name")))
            self.stmt(body)

        def inc():
            self.write(idx, self.read(idx) + 1)
        before = set(self.frame())
        self.frame()["__range_%s" % n["id"]] = idx
        self.loop(n, cond, bodyf, inc)
        self.leave(before)

    def range_other(self, n, loc, loopvar, body):
        raise Unsupported("range-for over %s" % (loc.t,))

    def loop(self, n, cond, body, inc, do=False):
        if self.spec is not None or self.merging:
            raise NeedFork()

        def c_():
            if cond is None:
                return z3.BoolVal(True)
            return cond() if callable(cond) else self.truth(cond)

        def b_():
            body() if callable(body) else self.stmt(body)

        def i_():
            if inc is not None:
                inc() if callable(inc) else self.ev(inc, discard=True)

        if self.mode == "collect":
            if not do:
                c_()
            self.branch_collect_fn(b_)
            i_()
            if do:
                c_()
            return
        if do:
            # one iteration, then the loop proper
            try:
                b_()
            except BreakEx:
                return
            except ContinueEx:
                pass
        unroll = self.opts.get("unroll", 0)
        if unroll:
            if self.try_unroll(n, c_, b_, i_, unroll):
                return
        self.cut_loop(n, c_, b_, i_)

    def branch_collect_fn(self, f):
        d = len(self.st.frames)
        try:
            f()
        except (ReturnEx, BreakEx, ContinueEx, PathEnd):
            while len(self.st.frames) > d:
                self.st.frames.pop()

    def try_unroll(self, n, c_, b_, i_, limit):
        for k in range(limit + 1):
            c = z3.simplify(c_())
            if k == limit:
                self.oblige("unwind", z3.Not(c), "loop needs at most %d iterations" % limit)
                self.assume(z3.Not(c))
                return True
            if not self.decide(c):
                return True
            try:
                b_()
            except BreakEx:
                return True
            except ContinueEx:
                pass
            i_()
        return True

    def loop_key(self, n):
        return (n["id"], tuple(self.trace[:self.pos]), len(self.st.frames), self.mode == "real" and "r" or "d", self.nest)

    nest = ()
    nofork = 0
    merging = 0

    def collect_writes(self, c_, b_, i_, mark_counter, mark_cell):
        """over-approximate what one iteration may write, to a fixpoint"""
        wset = set()
        base = self.st
        for _ in range(6):
            self.st = base.clone()
            ctr, cc = self.counter, self.cellctr
            self.havoc(wset, mark_counter)
            sm, sw = self.mode, self.writes
            self.mode = "collect"
            self.writes = set()
            a0 = self.st.alloc
            try:
                d = len(self.st.frames)
                self.branch_collect_fn(c_)
                self.branch_collect_fn(b_)
                self.branch_collect_fn(i_)
                new = set()
                for root, path in self.writes:
                    if root[0] == "cell":
                        if root[1] > mark_cell:
                            continue
                        new.add((root, ()))
                    elif root[0] == "heap":
                        new.add((("heap", root[1], root[2], root[3] if self.stable(root[3], mark_counter) else None), ()))
                    elif root[0] == "mem":
                        new.add((("mem", root[1], root[2] if self.stable(root[2], mark_counter) else None, root[3]), ()))
                    elif root[0] == "blk" and root[1] <= mark_cell:
                        new.add((root, ()))
                    elif root[0] == "ghost":
                        new.add((root, ()))
                if self.st.alloc is not a0:
                    new.add((("alloc",), ()))
            finally:
                self.mode, self.writes = sm, sw
                self.st = base
                self.counter, self.cellctr = ctr, cc
            new |= wset
            if self.wkeys(new) == self.wkeys(wset):
                break
            wset = new
        else:
            raise Unsupported("loop write set does not stabilise")
        return wset

    def wkeys(self, w):
        return set((r[0],) + tuple(str(x) for x in r[1:]) for r, _ in w)

    def stable(self, term, mark):
        st = [term]
        seen = set()
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                mm = re.search(r"!(\d+)$", nm)
                if mm and int(mm.group(1)) > mark:
                    return False
            st.extend(x.children())
        return True

    def havoc(self, wset, mark=None):
        st = self.st
        if any(r[0] == "alloc" for r, _ in wset):
            na = z3.Const(self.name("alloc"), INT)
            st.pc.append(na >= st.alloc)
            st.alloc = na
        # cells first, then memory
        for root, _ in sorted(wset, key=lambda w: str(w[0])):
            k = root[0]
            if k == "cell":
                c = root[1]
                if c not in st.cells:
                    continue
                v = st.cells[c]
                if isinstance(v, PMem) and not any(r == ("blk", c) for r, _ in wset):
                    # only ever moved within its block
                    st.cells[c] = PMem(v.t, v.blk, z3.Const(self.name((self.cellname.get(c) or "h") + ".off"), INT))
                    continue
                st.cells[c] = self.havoc_value(self.celltype[c], v, self.cellname.get(c) or "h")
            elif k == "heap":
                key = (root[1], root[2])
                m = self.heapmap(st, *key)
                if root[3] is None:
                    st.heap[key] = tmap(lambda a: z3.Const(self.name("H." + root[2]), a.sort()), m)
                else:
                    st.heap[key] = tmap(lambda a: z3.Store(a, root[3], z3.Const(self.name("h." + root[2]), a.sort().range())), m)
            elif k == "mem":
                m = self.memmap(st, root[3])
                if root[2] is None:
                    st.mem[root[1]] = tmap(lambda a: z3.Const(self.name("M"), a.sort()), m)
                else:
                    st.mem[root[1]] = tmap(lambda a: z3.Store(a, root[2], z3.Const(self.name("m"), a.sort().range())), m)
            elif k == "ghost":
                g = st.ghost[root[1]]
                st.ghost[root[1]] = tmap(lambda a: z3.Const(self.name("g"), a.sort()), g)

    def havoc_value(self, t, v, hint):
        if isinstance(v, It):
            i = z3.Const(self.name(hint), INT)
            self.st.pc.append(z3.And(i >= 0, i <= MAXLEN))
            return It(v.loc, i, v.t)
        if isinstance(v, PElem):
            return PElem(v.loc, z3.Const(self.name(hint), INT), v.t)
        if isinstance(v, PMem):
            return PMem(v.t, z3.Const(self.name(hint + ".blk"), INT), z3.Const(self.name(hint + ".off"), INT))
        if isinstance(v, Opaque):
            return v
        if isinstance(v, (PVar, Closure)) or v is NULL:
            if v is NULL and t is not None and t[0] == "ptr" and not isinstance(self.shape(t), Rec):
                r = z3.Const(self.name(hint), INT)
                self.st.pc.append(z3.And(r >= 0, r < self.st.alloc))
                return r
            raise Unsupported("loop changes a pointer variable")
        if isinstance(v, Rec):
            nv = tmap(lambda a: z3.Const(self.name(hint), a.sort()) if is_z3(a) else a, v)
            if t is not None:
                if t[0] == "arr":
                    nv = nv.set("len", v.d["len"])
                self.typefacts(t, nv)
            return nv
        if is_z3(v):
            nv = z3.Const(self.name(hint), v.sort())
            if t is not None:
                self.typefacts(t, nv)
            return nv
        raise Unsupported("havoc of %r" % (v,))

    def cut_loop(self, n, c_, b_, i_):
        key = self.loop_key(n)
        mark_counter, mark_cell = self.counter, self.cellctr
        line = line_str(n, self.tu.rel)
        if key not in self.houdini_cache:
            wset = self.collect_writes(c_, b_, i_, mark_counter, mark_cell)
            entry = self.st.clone()
            lc = LoopCtx(self, n, entry, wset)
            cands = self.candidates(lc)
            # (1) hold on entry
            cands = self.filter_cands(cands, self.st)
            meas = self.measures(lc)
            rounds = 0
            while True:
                rounds += 1
                dead, deadm = set(), set()
                sm = self.mode
                ctr, cc = self.counter, self.cellctr
                base = self.st
                self.st = base.clone()
                self.havoc(wset, mark_counter)
                for nm, f in cands:
                    self.assume(f(self.st))
                head = self.st.clone()
                self.mode = "dry"
                snest = self.nest
                self.nest = snest + ((n["id"], tuple(self.trace[:self.pos]), rounds),)
                sw = self.writes

                def one():
                    if not self.decide(c_()):
                        raise PathEnd()
                    try:
                        b_()
                    except ContinueEx:
                        pass
                    except BreakEx:
                        raise PathEnd()
                    except ReturnEx:
                        raise PathEnd()
                    i_()
                    live = [(nm, f) for nm, f in cands if nm not in dead]
                    keep = self.filter_cands(live, self.st)
                    kn = set(nm for nm, _ in keep)
                    for nm, _ in live:
                        if nm not in kn:
                            dead.add(nm)
                    livem = [(nm, f) for nm, f in meas if nm not in deadm]
                    if livem:
                        goals = [(nm, z3.And(f(head) > f(self.st), f(head) >= 0)) for nm, f in livem]
                        easy = set(nm for nm, g in goals if not smt.feasible(self.st.pc + [z3.Not(g)]))
                        for nm, g in goals:
                            if nm not in easy and nm.startswith("given: ") and smt.prove(self.st.pc, g, thorough=False, tmo=1500)[0] == "proved":
                                easy.add(nm)
                        if not easy:
                            # the arithmetic alone settles none: the first one the facts settle
                            for nm, g in goals:
                                if smt.prove(self.st.pc, g, thorough=False, tmo=1500)[0] == "proved":
                                    easy.add(nm)
                                    break
                        deadm.update(nm for nm, _ in livem if nm not in easy)
                try:
                    np = self.explore(one)
                    self.dry_paths += np
                finally:
                    self.mode = sm
                    self.st = base
                    self.counter, self.cellctr = ctr, cc
                    self.nest = snest
                    self.writes = sw
                if not dead:
                    break
                cands = [(nm, f) for nm, f in cands if nm not in dead]
            meas = [m for m in meas if m[0] not in deadm]
            self.houdini_cache[key] = (wset, cands, meas, rounds)
        wset, cands, meas, rounds = self.houdini_cache[key]
        if self.mode == "real":
            # entry establishment, re-proved here as obligations
            self.curnode = n
            for nm, f in cands:
                pass
            self.results.append(Result("invariant-entry", "%d invariants hold on entry" % len(cands), self.fname + " @ " + line, "proved", "houdini"))
        self.havoc(wset, mark_counter)
        if self.writes is not None:
            for w in wset:
                self.writes.add(w)
        for nm, f in cands:
            self.assume(f(self.st))
        head = self.st.clone()
        if self.mode == "real":
            self.loops.setdefault((n["id"], line), False)
        if not self.decide(c_()):
            if self.mode == "real":
                self.loops[(n["id"], line)] = True
                if meas:
                    self.results.append(Result("termination", "measure " + meas[0][0], self.fname + " @ " + line, "proved", "houdini"))
                else:
                    need = self.opts.get("termination", True)
                    self.results.append(Result("termination", "no decreasing measure found", self.fname + " @ " + line,
                                               "unknown" if need else "skipped", "houdini"))
            return
        try:
            b_()
        except ContinueEx:
            pass
        except BreakEx:
            if self.mode == "real":
                self.loops[(n["id"], line)] = True
            if self.mode == "real" and self.opts.get("termination", True):
                self.results.append(Result("termination", "measure " + (meas[0][0] if meas else "-"), self.fname + " @ " + line,
                                           "proved" if meas else "unknown", "houdini"))
            return
        except ReturnEx:
            if self.mode == "real":
                self.loops[(n["id"], line)] = True
            if self.mode == "real" and self.opts.get("termination", True):
                self.results.append(Result("termination", "measure " + (meas[0][0] if meas else "-"), self.fname + " @ " + line,
                                           "proved" if meas else "unknown", "houdini"))
            raise
        i_()
        if self.mode == "real":
            self.results.append(Result("invariant-preserved", "%d invariants preserved (%d rounds)" % (len(cands), rounds),
                                       self.fname + " @ " + line, "proved", "houdini"))
        raise PathEnd()

    def filter_cands(self, cands, st):
        """keep the candidates provable in st"""
        if not cands:
            return []
        keep = []
        quant = any(smt.has_quant(p) for p in st.pc)
        s = z3.Solver()
        smt.budget(s, self.opts.get("cand_ms", 1500))
        if quant or any(smt.has_quant(f(st)) for _, f in cands):
            s.set("smt.mbqi", False)
            s.set("auto_config", False)
            s.set("smt.array.extensional", False)
        for p in st.pc:
            s.add(p)
        for nm, f in cands:
            g = f(st)
            if z3.is_true(z3.simplify(g)):
                keep.append((nm, f))
                continue
            smt.STATS["queries"] += 1
            t0 = time.time()
            s.push()
            s.add(z3.Not(g))
            r = s.check()
            s.pop()
            if r == z3.unknown and quant:  # once more with preprocessing
                s2 = z3.Solver()
                smt.budget(s2, self.opts.get("cand_ms", 1400) // 2)
                for a, b in (("smt.mbqi", False), ("auto_config", False), ("smt.array.extensional", False)):
                    s2.set(a, b)
                for p in st.pc:
                    s2.add(p)
                s2.add(z3.Not(g))
                r = s2.check()
            smt.STATS["z3_s"] += time.time() - t0
            if DBG:
                print("cand %.2f %s %s" % (time.time() - t0, r, nm), flush=True)
            if r == z3.unsat:
                keep.append((nm, f))
        return keep

    # candidate invariants -------------------------------------------------
    def candidates(self, lc):
        out = []
        ints = lc.ints()
        for nm, g in ints:
            if lc.modified(nm):
                e = g(lc.entry)
                out.append(("%s>=entry" % nm, lambda st, g=g, e=e: g(st) >= e))
                out.append(("%s<=entry" % nm, lambda st, g=g, e=e: g(st) <= e))
                out.append(("%s>=0" % nm, lambda st, g=g: g(st) >= 0))
                out.append(("%s>=1" % nm, lambda st, g=g: g(st) >= 1))
        terms = ints + lc.lens()
        for i, (a, ga) in enumerate(terms):
            for j, (b, gb) in enumerate(terms):
                if i != j and (lc.modified(a) or lc.modified(b)):
                    out.append(("%s<=%s" % (a, b), lambda st, ga=ga, gb=gb: ga(st) <= gb(st)))
                    out.append(("%s<%s" % (a, b), lambda st, ga=ga, gb=gb: ga(st) < gb(st)))
                    if i < j:
                        out.append(("%s==%s" % (a, b), lambda st, ga=ga, gb=gb: ga(st) == gb(st)))
        if self.inv_gen:
            out += self.inv_gen(self.cx, lc)
        return out

    def measures(self, lc):
        out = []
        ints = lc.ints()
        for nm, g in ints:
            if lc.modified(nm):
                out.append((nm, g))
                out.append((nm + "-MIN", lambda st, g=g: g(st) - I64_MIN))
                out.append(("MAX-" + nm, lambda st, g=g: I64_MAX * 2 + 2 - g(st)))
        terms = ints + lc.lens()
        for a, ga in terms:
            for b, gb in ints:
                if a != b and (lc.modified(a) or lc.modified(b)):
                    out.append(("%s-%s" % (a, b), lambda st, ga=ga, gb=gb: ga(st) - gb(st)))
        if getattr(self, "meas_gen", None):
            out = [("given: " + nm, f) for nm, f in self.meas_gen(self.cx, lc)] + out
        return out

    # ----------------------------------------------------------- expressions
    def ev(self, n, discard=False):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(n)

    def lv(self, n):
        """evaluate to a location"""
        k = n["kind"]
        if k == "DeclRefExpr":
            return self.declref(n)
        if k in ("ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr"):
            return self.lv(n["inner"][0])
        if k == "MaterializeTemporaryExpr":
            v = self.ev(n["inner"][0])
            if isinstance(v, Loc):
                return v
            return self.new_cell(self.ty(n), v, "tmp")
        if k in ("ImplicitCastExpr", "CXXStaticCastExpr", "CXXConstCastExpr", "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr"):
            ck = n.get("castKind")
            if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "LValueBitCast"):
                l = self.lv(n["inner"][0])
                if l.root[0] == "obj" and ck != "NoOp":
                    t = self.ty(n)
                    t = t[1] if t[0] == "ref" else t
                    if t[0] == "cls" and ck == "BaseToDerived":
                        return Loc(("obj", t[1], l.root[2]), (), t)
                return l
            v = self.ev(n)
            if isinstance(v, Loc):
                return v
            return self.new_cell(self.ty(n), v, "tmp")
        if k == "MemberExpr":
            return self.member(n)
        if k == "UnaryOperator":
            op = n["opcode"]
            if op == "*":
                sub = n["inner"][0]
                return self.deref(self.rv(sub), self.ty(sub))
            if op in ("++", "--") and not n.get("isPostfix"):
                return self.incdec(n)[0]
            if op in ("__extension__",):
                return self.lv(n["inner"][0])
        if k in ("BinaryOperator", "CompoundAssignOperator") and n["opcode"].endswith("=") and n["opcode"] not in ("==", "!=", "<=", ">="):
            return self.assign(n)
        if k == "BinaryOperator" and n["opcode"] == ",":
            self.ev(n["inner"][0], discard=True)
            return self.lv(n["inner"][1])
        if k == "ArraySubscriptExpr":
            return self.subscript(n)
        if k == "CXXThisExpr":
            raise Unsupported("this as lvalue")
        if k == "ConditionalOperator":
            c, a, b = n["inner"]
            if self.decide(self.truth(c)):
                return self.lv(a)
            return self.lv(b)
        if k == "StringLiteral":
            return self.strlit(n)
        v = self.ev(n)
        if isinstance(v, Loc):
            return v
        return self.new_cell(self.ty(n), v, "tmp")

    def rv(self, n):
        v = self.ev(n)
        if isinstance(v, Loc):
            v = self.read(v)
        return v

    def e_any_lv(self, n):
        return self.lv(n)

    e_MemberExpr = e_any_lv
    e_ArraySubscriptExpr = e_any_lv
    e_StringLiteral = e_any_lv
    e_MaterializeTemporaryExpr = e_any_lv

    def e_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["kind"] == "EnumConstantDecl":
            if d["id"] in self.tu.enums:
                return z3.IntVal(self.tu.enums[d["id"]])
            raise Unsupported("enumerator " + str(d.get("name")))
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return FuncRef(d, self.tu.idq.get(d["id"], d.get("name")))
        return self.declref(n)

    def declref(self, n):
        d = n["referencedDecl"]
        for f in (self.st.frames[-1],):
            if d["id"] in f:
                return f[d["id"]]
        if d["id"] in self.tu.globals:
            return self.global_loc(d["id"])
        raise Unsupported("reference to %s %s" % (d["kind"], d.get("name")))

    def global_loc(self, i):
        g = self.tu.globals[i]
        key = ("global", i)
        if key in self.st.ghost:
            return self.st.ghost[key]
        t = self.ty(g)
        s = g.get("type", {}).get("qualType", "")
        if s.startswith("const") or g.get("constexpr") or " const" in s:
            init = [x for x in g.get("inner", []) if x.get("kind") and not x["kind"].endswith("Attr")]
            if init:
                self.st.frames.append({})
                try:
                    v = self.init_value(init[0], t)
                finally:
                    self.st.frames.pop()
                return self.new_cell(t, v, g.get("name"))
            # a constant of another file: some fixed value
            v = tmap_named(lambda p, so: z3.Const("const.%s%s" % (g.get("name"), p), so), self.shape(t))
            self.typefacts(t, v)
            return self.new_cell(t, v, g.get("name"))
        raise Unsupported("non-constant global " + str(g.get("name")))

    def e_IntegerLiteral(self, n):
        return z3.IntVal(int(n["value"]))

    def e_CharacterLiteral(self, n):
        v = int(n["value"])
        if v > 127:
            v -= 256
        return z3.IntVal(v)

    def e_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n["value"]))

    def e_FloatingLiteral(self, n):
        import struct
        return z3.IntVal(struct.unpack("<q", struct.pack("<d", float(n["value"])))[0])

    def e_CXXNullPtrLiteralExpr(self, n):
        return NULL

    def e_GNUNullExpr(self, n):
        return NULL

    def e_CXXThisExpr(self, n):
        th = self.frame().get("this")
        if th is None:
            raise Unsupported("this")
        return PVar(th)

    def e_ParenExpr(self, n):
        return self.ev(n["inner"][0])

    e_ExprWithCleanups = e_ParenExpr
    e_CXXBindTemporaryExpr = e_ParenExpr
    e_ConstantExpr = e_ParenExpr
    e_SubstNonTypeTemplateParmExpr = e_ParenExpr

    def e_CXXDefaultArgExpr(self, n):
        raise Unsupported("default argument")

    def e_CXXDefaultInitExpr(self, n):
        raise Unsupported("default init")

    def e_ImplicitValueInitExpr(self, n):
        return self.zero(self.ty(n))

    def e_CXXScalarValueInitExpr(self, n):
        return self.zero(self.ty(n))

    def zero(self, t):
        if t[0] in ("int", "fval"):
            return z3.IntVal(0)
        if t[0] == "bool":
            return z3.BoolVal(False)
        if t[0] == "ptr":
            return NULL
        return self.default_value(t, "zero")

    def strlit(self, n):
        import ast as _a
        s = n["value"]
        body = s[s.index('"'):]
        try:
            b = _a.literal_eval("b" + body) if all(ord(c) < 128 for c in body) else body[1:-1].encode()
        except Exception:
            raise Unsupported("string literal")
        r = self.const_str(b)
        return self.new_cell(("str",), r, "lit")

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get("name") == "sizeof":
            a = n.get("argType")
            t = self.tys(a.get("desugaredQualType") or a["qualType"], a.get("qualType")) if a else self.ty(n["inner"][0])
            return z3.IntVal(self.sizeof(t))
        raise Unsupported("type trait")

    def sizeof(self, t):
        if t[0] == "int":
            return t[1] // 8
        if t[0] in ("fval", "ptr"):
            return 8
        if t[0] == "bool":
            return 1
        if t[0] == "arr" and t[2]:
            return t[2] * self.sizeof(t[1])
        if t[0] == "cls":
            fs = self.fields(t[1])
            if all(self.sizeof(f[2]) == 8 for f in fs):
                return 8 * len(fs)
        raise Unsupported("sizeof %s" % (t,))

    # casts
    def conv(self, v, src, dst):
        if isinstance(v, Loc):
            v = self.read(v)
        if dst[0] == "bool":
            if src[0] == "fval":
                return z3.And(v != 0, v != I64_MIN)
            return self.as_bool(v)
        if dst[0] == "int":
            if z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if src[0] == "bool":
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if src[0] == "int":
                return self.wrap(v, src, dst)
            if src[0] == "fval":
                raise Unsupported("float to int conversion")
            return v
        return v

    def wrap(self, v, src, dst):
        if z3.is_int_value(v):
            x = v.as_long()
            bits = dst[1]
            x &= TWO[bits] - 1
            if dst[2] and x >= TWO[bits - 1]:
                x -= TWO[bits]
            return z3.IntVal(x)
        slo, shi = rng(src)
        lo, hi = rng(dst)
        if lo <= slo and shi <= hi:
            return v
        m = TWO[dst[1]]
        if src[1] == dst[1]:
            if dst[2]:
                return z3.If(v > hi, v - m, v)
            return z3.If(v < 0, v + m, v)
        if not dst[2]:
            if src[1] < dst[1]:
                return z3.If(v < 0, v + m, v)
            return z3.If(z3.And(v >= 0, v < m), v, v % m)
        r = v % m
        return z3.If(z3.And(v >= lo, v <= hi), v, z3.If(r > hi, r - m, r))

    def e_ImplicitCastExpr(self, n):
        ck = n.get("castKind")
        sub = n["inner"][0]
        if ck == "LValueToRValue":
            l = self.ev(sub)
            return self.read(l) if isinstance(l, Loc) else l
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion", "UserDefinedConversion", "FunctionToPointerDecay",
                  "BuiltinFnToFnPtr", "BaseToDerived", "Dynamic"):
            return self.ev(sub)
        if ck == "IntegralCast":
            v = self.rv(sub)
            s = self.ty(sub)
            if z3.is_bool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return self.wrap(v, s, self.ty(n)) if s[0] == "int" and self.ty(n)[0] == "int" else v
        if ck == "IntegralToBoolean":
            return self.as_bool(self.rv(sub))
        if ck == "PointerToBoolean":
            return self.as_bool(self.rv(sub))
        if ck == "FloatingToBoolean":
            return self.conv(self.rv(sub), ("fval",), ("bool",))
        if ck == "BooleanToSignedIntegral" or ck == "IntegralToFloating" or ck == "FloatingToIntegral":
            v = self.rv(sub)
            if ck == "IntegralToFloating":
                return self.int_to_float(v)
            if ck == "FloatingToIntegral":
                return self.float_to_int(v)
            return v
        if ck == "NullToPointer":
            return NULL
        if ck == "ArrayToPointerDecay":
            l = self.lv(sub)
            et = ("int", 8, True) if l.t[0] == "str" else l.t[1]
            return PElem(l, z3.IntVal(0), et)
        if ck == "ToVoid":
            self.ev(sub, discard=True)
            return None
        if ck == "BitCast":
            return self.bitcast(self.rv(sub), self.ty(sub), self.ty(n))
        if ck == "AtomicToNonAtomic" or ck == "NonAtomicToAtomic" or ck == "FloatingCast":
            return self.ev(sub)
        raise Unsupported("cast " + str(ck))

    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr
    e_CXXReinterpretCastExpr = e_ImplicitCastExpr
    e_BuiltinBitCastExpr = e_ImplicitCastExpr

    def int_to_float(self, v):
        f = z3.Function("i2f", INT, INT)
        if z3.is_int_value(v) and v.as_long() == 0:
            return z3.IntVal(0)
        return f(v)

    def float_to_int(self, v):
        raise Unsupported("float to int")

    def bitcast(self, v, s, d):
        # same-width scalar reinterpretation is the identity here: an fval is
        # carried as its 64-bit pattern.
        if s[0] == "ptr" and d[0] == "ptr":
            if {s[1][0], d[1][0]} <= {"int", "fval"} and self.sizeof(s[1]) == 8 and self.sizeof(d[1]) == 8:
                return v
            if d[1][0] == "void" or s[1] == d[1]:
                return v
            if isinstance(v, PMem) and s[1][0] == "int" and d[1][0] in ("int", "fval"):
                ws, wd = self.sizeof(s[1]), self.sizeof(d[1])
                if ws == 1 and wd == 1:
                    # bytes, signed and unsigned: only a cast of a fresh view is supported
                    raise Unsupported("char pointer cast")
                if ws == 1 and wd == 8:
                    self.oblige("bounds", v.off % 8 == 0, "aligned view of a byte block")
                    self.assume(self.blen(V64(v.blk)) == self.blen(v.blk) / 8)
                    return PMem(d[1], V64(v.blk), z3.simplify(v.off / 8))
                if ws == 8 and wd == 1 and z3.is_app(v.blk) and v.blk.decl().eq(V64):
                    return PMem(d[1], v.blk.arg(0), z3.simplify(v.off * 8))
            if isinstance(v, PMem):
                return PMem(v.t, v.blk, v.off, view=d[1])
            if is_z3(v):
                return v
        raise Unsupported("pointer cast %s -> %s" % (s, d))

    # unary / binary
    def e_UnaryOperator(self, n):
        op = n["opcode"]
        sub = n["inner"][0]
        if op == "*":
            return self.lv(n)
        if op == "&":
            l = self.lv(sub)
            return self.addrof(l)
        if op == "!":
            return z3.Not(self.truth(sub))
        if op == "-":
            v = self.rv(sub)
            t = self.ty(n)
            if t[0] == "fval":
                if z3.is_int_value(v):
                    x = v.as_long() ^ (1 << 63)
                    x = x & (TWO[64] - 1)
                    return z3.IntVal(x - TWO[64] if x >= TWO[63] else x)
                return z3.Function("fneg", INT, INT)(v)
            return self.arith("-", z3.IntVal(0), v, t)
        if op == "+":
            return self.rv(sub)
        if op == "~":
            t = self.ty(n)
            v = self.rv(sub)
            return (-v - 1) if t[2] else (rng(t)[1] - v)
        if op in ("++", "--"):
            l, old = self.incdec(n)
            return old if n.get("isPostfix") else l
        if op == "__extension__":
            return self.ev(sub)
        raise Unsupported("unary " + op)

    def addrof(self, l):
        if l.path and l.path[-1][0] == "i":
            if l.root[0] == "mem" and len(l.path) == 1:
                return PMem(l.root[3], l.root[2], l.path[-1][1])
            base = Loc(l.root, l.path[:-1], None)
            return PElem(base, l.path[-1][1], l.t)
        if l.root[0] == "obj" and not l.path:
            return l.root[2]
        return PVar(l)

    def incdec(self, n):
        l = self.lv(n["inner"][0])
        v = self.read(l)
        d = 1 if n["opcode"] == "++" else -1
        if isinstance(v, (It, PElem, PMem)):
            nv = self.ptradd(v, z3.IntVal(d))
        else:
            t = self.ty(n["inner"][0])
            nv = self.conv_store(self.arith("+" if d > 0 else "-", v, z3.IntVal(1), self.promote(t)), self.promote(t), t)
        self.write(l, nv)
        return l, v

    def conv_store(self, v, s, t):
        if t[0] == "int" and s[0] == "int":
            return self.wrap(v, s, t)
        return v

    def promote(self, t):
        if t[0] == "int" and t[1] < 32:
            return ("int", 32, True)
        if t[0] == "bool":
            return ("int", 32, True)
        return t

    def ptradd(self, v, d):
        if isinstance(v, It):
            return It(v.loc, z3.simplify(v.idx + d), v.t)
        if isinstance(v, PElem):
            return PElem(v.loc, z3.simplify(v.idx + d), v.t)
        if isinstance(v, PMem):
            return PMem(v.t, v.blk, z3.simplify(v.off + d), v.view)
        raise Unsupported("pointer arithmetic")

    def arith(self, op, a, b, t):
        if t[0] == "fval":
            return z3.Function("f" + {"+": "add", "-": "sub", "*": "mul", "/": "div"}[op], INT, INT, INT)(a, b)
        if t[0] != "int":
            raise Unsupported("arithmetic on %s" % (t,))
        lo, hi = rng(t)
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op in ("/", "%"):
            self.oblige("div-zero", b != 0, "divisor is not zero")
            if not t[2]:
                return a / b if op == "/" else a % b
            if z3.is_int_value(b) and b.as_long() > 0:
                q = z3.If(a >= 0, a / b, -((-a) / b))
            else:
                q = z3.If(a >= 0, z3.If(b > 0, a / b, -(a / (-b))), z3.If(b > 0, -((-a) / b), (-a) / (-b)))
                self.oblige("overflow", z3.Not(z3.And(a == lo, b == -1)), "division does not overflow")
            return q if op == "/" else a - q * b
        elif op in ("<<", ">>", "&", "|", "^"):
            return self.bitop(op, a, b, t)
        else:
            raise Unsupported("operator " + op)
        r = z3.simplify(r)
        if t[2]:
            if self.opts.get("overflow", True):
                self.oblige("overflow", z3.And(r >= lo, r <= hi), "signed %s does not overflow" % op)
            return r
        m = TWO[t[1]]
        if z3.is_int_value(r):
            return z3.IntVal(r.as_long() % m)
        if op == "+":
            return z3.If(r >= m, r - m, r)
        if op == "-":
            return z3.If(r < 0, r + m, r)
        return z3.If(z3.And(r >= 0, r < m), r, r % m)

    def bitop(self, op, a, b, t):
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            m = TWO[t[1]]
            x, y = x % m, y % m
            r = {"<<": lambda: x << y, ">>": lambda: (a.as_long() >> y), "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]() % m
            if t[2] and r >= m // 2:
                r -= m
            return z3.IntVal(r)
        if op == "&" and z3.is_int_value(b):
            k = b.as_long()
            if k == 0:
                return z3.IntVal(0)
            if k > 0 and (k & (k + 1)) == 0:
                if self.valid(z3.And(a >= -(k + 1), a <= k)):
                    return z3.If(a < 0, a + (k + 1), a)
                return a % (k + 1)
            if k > 0 and (k & (k - 1)) == 0:
                if self.valid(z3.And(a >= -k, a < 2 * k)):
                    return z3.If(z3.Or(a < 0, a >= k), z3.IntVal(k), z3.IntVal(0))
                return z3.If((a / k) % 2 == 1, z3.IntVal(k), z3.IntVal(0))
        if op == "&" and z3.is_int_value(a):
            return self.bitop(op, b, a, t)
        if op == ">>" and z3.is_int_value(b):
            return a / TWO[b.as_long()]
        if op == "<<" and z3.is_int_value(b):
            r = a * TWO[b.as_long()]
            if t[2]:
                self.oblige("overflow", z3.And(a >= 0, r <= rng(t)[1]), "shift does not overflow")
                return r
            m = TWO[t[1]]
            return z3.If(r < m, r, r % m)
        if op in ("|", "^"):
            for x, y in ((a, b), (b, a)):
                k = lowzeros(y)
                if k and self.valid(z3.And(x >= 0, x < (1 << k), y >= 0)):
                    return x + y  # no bit in common
        if op == "<<":
            self.oblige("overflow", z3.And(b >= 0, b < t[1]), "shift distance in range")
        w = t[1]
        x, y = z3.Int2BV(a, w), z3.Int2BV(b, w)
        r = {"<<": lambda: x << y, ">>": lambda: (x >> y) if t[2] else z3.LShR(x, y), "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y}[op]()
        return z3.BV2Int(r, t[2])

    def valid(self, g):
        """does the path condition imply g (arithmetic only)?"""
        if self.mode == "collect":
            return True
        return not smt.feasible(self.st.pc + [z3.Not(g)], 600)

    CMP = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b,
           "==": lambda a, b: a == b, "!=": lambda a, b: a != b}

    def e_BinaryOperator(self, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op in ("&&", "||"):
            return self.logic(op, a, b)
        if op == ",":
            self.ev(a, discard=True)
            return self.ev(b)
        if op == "=":
            return self.assign(n)
        x, y = self.rv(a), self.rv(b)
        ta, tb = self.ty(a), self.ty(b)
        if op in self.CMP:
            return self.compare(op, x, y, ta, tb)
        if isinstance(x, (It, PElem, PMem)):
            if op == "+":
                return self.ptradd(x, y)
            if op == "-":
                if isinstance(y, (It, PElem, PMem)):
                    return self.ptrdiff(x, y)
                return self.ptradd(x, z3.simplify(-y))
        if isinstance(y, (It, PElem, PMem)) and op == "+":
            return self.ptradd(y, x)
        t = self.ty(n)
        if z3.is_bool(x) and op in ("&", "|", "^") and z3.is_bool(y):
            return {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](x, y)
        return self.arith(op, x, y, t)

    def ptrdiff(self, x, y):
        if isinstance(x, PMem):
            self.oblige("bounds", x.blk == y.blk, "pointers into the same block")
            return z3.simplify(x.off - y.off)
        if x.loc.root != y.loc.root:
            raise Unsupported("pointer difference across arrays")
        return z3.simplify(x.idx - y.idx)

    def compare(self, op, x, y, ta, tb):
        if ta and ta[0] == "fval":
            return self.fcompare(op, x, y)
        if x is NULL or y is NULL or isinstance(x, (PVar, PElem, PMem, It)) or isinstance(y, (PVar, PElem, PMem, It)):
            if x is NULL and y is NULL:
                return z3.BoolVal(op in ("==", "<=", ">="))
            if x is NULL or y is NULL:
                p = y if x is NULL else x
                if is_z3(p):
                    e = p == 0
                elif isinstance(p, PMem):
                    e = p.blk == 0
                elif isinstance(p, Opaque):
                    e = z3.Const(self.name("opaque_null"), z3.BoolSort())
                else:
                    e = z3.BoolVal(False)
                return e if op == "==" else z3.Not(e)
            if isinstance(x, PMem) and isinstance(y, PMem):
                if op in ("==", "!="):
                    e = z3.And(x.blk == y.blk, x.off == y.off)
                    return e if op == "==" else z3.Not(e)
                self.oblige("bounds", x.blk == y.blk, "compared pointers point into the same block")
                return self.CMP[op](x.off, y.off)
            if isinstance(x, PVar) and isinstance(y, PVar):
                e = z3.BoolVal(x.loc.root == y.loc.root and x.loc.path == y.loc.path)
                return e if op == "==" else z3.Not(e)
            if x.loc.root != y.loc.root or x.loc.path != y.loc.path:
                raise Unsupported("comparison of pointers into different arrays")
            return self.CMP[op](x.idx, y.idx)
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return z3.Const(self.name("opaque_cmp"), z3.BoolSort())
        if z3.is_bool(x) != z3.is_bool(y):
            x = z3.If(x, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(x) else x
            y = z3.If(y, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(y) else y
        return self.CMP[op](x, y)

    def fcompare(self, op, x, y):
        if op in ("==", "!="):
            for a, b in ((x, y), (y, x)):
                if z3.is_int_value(b) and b.as_long() == 0:
                    e = z3.Or(a == 0, a == I64_MIN)
                    return e if op == "==" else z3.Not(e)
            f = z3.Function("feq", INT, INT, z3.BoolSort())
            return f(x, y) if op == "==" else z3.Not(f(x, y))
        f = z3.Function("flt", INT, INT, z3.BoolSort())
        if op == "<":
            return f(x, y)
        if op == ">":
            return f(y, x)
        g = z3.Function("fle", INT, INT, z3.BoolSort())
        return g(x, y) if op == "<=" else g(y, x)

    def speculate(self, guard, fn):
        """evaluate fn() under guard without forking or writing -> value"""
        st = self.st
        npc, spec, nres = len(st.pc), self.spec, len(self.results)
        ctr, cc = self.counter, self.cellctr
        known = set(st.known)
        nfr = len(st.frames)
        st.pc.append(guard)
        if self.spec is None:
            self.spec = self.cellctr
        try:
            v = fn()
        except NeedFork:
            del st.pc[npc:]
            del self.results[nres:]
            del st.frames[nfr:]
            st.known = known
            self.counter, self.cellctr = ctr, cc
            raise
        finally:
            self.spec = spec
        extra = st.pc[npc + 1:]
        del st.pc[npc:]
        st.known = known
        for x in extra:
            st.pc.append(z3.Implies(guard, x))
        return v

    def logic(self, op, a, b):
        x = z3.simplify(self.truth(a))
        if self.mode == "collect":
            y = self.truth(b)
            return z3.And(x, y) if op == "&&" else z3.Or(x, y)
        if op == "&&" and z3.is_false(x):
            return x
        if op == "||" and z3.is_true(x):
            return x
        if (op == "&&" and z3.is_true(x)) or (op == "||" and z3.is_false(x)):
            return self.truth(b)
        guard = x if op == "&&" else z3.Not(x)
        if self.spec is None and not smt.feasible(self.st.pc + [guard]):
            return z3.BoolVal(op != "&&")
        try:
            y = self.speculate(guard, lambda: self.truth(b))
            return z3.And(x, y) if op == "&&" else z3.Or(x, y)
        except NeedFork:
            if self.spec is not None:
                raise
            if self.decide(guard):
                return self.truth(b)
            return z3.BoolVal(op != "&&")

    def e_ConditionalOperator(self, n):
        c, a, b = n["inner"]
        x = z3.simplify(self.truth(c))
        if self.mode == "collect":
            self.ev(a, discard=True)
            r = self.ev(b)
            if isinstance(r, Loc):
                return r
            return r if r is not None and not (r is NULL) else self.ev(a)
        if z3.is_true(x):
            return self.ev(a)
        if z3.is_false(x):
            return self.ev(b)
        if self.is_abort(b):
            # assert(e): reaching the abort arm is an obligation
            self.oblige("assert", x, "assertion holds")
            self.assume(x)
            return self.ev(a)
        try:
            va = self.speculate(x, lambda: self.rv(a))
            vb = self.speculate(z3.Not(x), lambda: self.rv(b))
            if va is None and vb is None:
                return None
            if va is NULL and vb is not NULL:
                va = self.unfix(self.ty(n), va) if not isinstance(vb, PMem) else PMem(vb.t, z3.IntVal(0), z3.IntVal(0))
            if vb is NULL and va is not NULL:
                vb = self.unfix(self.ty(n), vb) if not isinstance(va, PMem) else PMem(va.t, z3.IntVal(0), z3.IntVal(0))
            if z3.is_bool(va) if is_z3(va) else False:
                return z3.Or(z3.And(x, va), z3.And(z3.Not(x), vb))
            return self.ite(x, va, vb)
        except (NeedFork, Unsupported):
            if self.spec is not None:
                raise NeedFork()
            if self.decide(x):
                return self.ev(a)
            return self.ev(b)

    def is_abort(self, n):
        k = n["kind"]
        if k == "CallExpr":
            f = n["inner"][0]
            while f["kind"] == "ImplicitCastExpr" or f["kind"] == "ParenExpr":
                f = f["inner"][0]
            return f["kind"] == "DeclRefExpr" and f["referencedDecl"].get("name") in ("__assert_fail", "abort")
        if k in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups", "CStyleCastExpr"):
            return self.is_abort(n["inner"][0])
        return False

    def assign(self, n):
        op = n["opcode"]
        a, b = n["inner"]
        if op == "=":
            v = self.rv(b)
            l = self.lv(a)
            self.write(l, self.toloc(l, v))
            return l
        y = self.rv(b)
        l = self.lv(a)
        x = self.read(l)
        op = op[:-1]
        if isinstance(x, (It, PElem, PMem)):
            nv = self.ptradd(x, y if op == "+" else z3.simplify(-y))
        else:
            ta = self.ty(a)
            ct = n.get("computeResultType") or {}
            t = self.tys(ct.get("desugaredQualType") or ct.get("qualType")) if ct else self.promote(ta)
            if t[0] == "int" and ta[0] == "int":
                x = self.wrap(x, ta, t)
            if z3.is_bool(x) and op in ("&", "|"):
                yb = self.as_bool(y)
                nv = z3.And(x, yb) if op == "&" else z3.Or(x, yb)
            else:
                nv = self.arith(op, x, y, t)
                nv = self.conv_store(nv, t, ta)
        self.write(l, nv)
        return l

    e_CompoundAssignOperator = assign

    def toloc(self, l, v):
        return v

    def subscript(self, n):
        a, b = n["inner"]
        base = self.rv(a)
        idx = self.rv(b)
        if is_z3(base) and not isinstance(idx, (PElem, PMem)) and False:
            pass
        if isinstance(idx, (PElem, PMem)):
            base, idx = idx, base
        p = self.ptradd(base, idx)
        self.check_ptr(p)
        return self.deref(p)

    def check_ptr(self, p):
        if isinstance(p, PElem):
            try:
                ln = self.read(p.loc.f("len", None), facts=False)
            except Unsupported:
                return
            self.oblige("bounds", z3.And(p.idx >= 0, p.idx < ln), "array index in bounds")
        elif isinstance(p, PMem):
            self.check_mem(p)

    def check_mem(self, p):
        bl = self.blen(p.blk)
        self.oblige("bounds", z3.And(p.off >= 0, p.off < bl), "memory access in bounds")

    BLEN = z3.Function("blen", INT, INT)

    def blen(self, blk):
        return self.BLEN(blk)

    def member(self, n):
        base = n["inner"][0]
        name = n.get("name")
        if n.get("isArrow"):
            v = self.rv(base)
            if isinstance(v, PVar):
                l = v.loc
            else:
                l = self.deref(v, self.ty(base), n)
        else:
            l = self.lv(base)
        if l.root[0] == "cell" and isinstance(self.st.cells.get(l.root[1]), Opaque) and not l.path:
            return self.new_cell(None, Opaque(name), name)
        if l.root[0] == "obj" and not l.path:
            for (gc, gl), g in self.opts.get("guarded", {}).items():
                if name in g["fields"] and self.is_sub(l.root[1], gc):
                    self.oblige("lock", z3.Or(self.read(self.field(l, gl)) == 1, l.root[2] >= self.cx.pre.alloc), "%s is used with its lock held" % name)
            for o, fn, ft, fd in self.fields(l.root[1]):
                if fd.get("id") == n.get("referencedMemberDecl"):
                    return Loc(("heap", o, name, l.root[2]), (), ft)
        return self.field(l, name)

    # ------------------------------------------------------------------ calls
    def callee(self, f):
        while f["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            f = f["inner"][0]
        return f

    def e_CallExpr(self, n):
        f = self.callee(n["inner"][0])
        args = n["inner"][1:]
        if f["kind"] == "DeclRefExpr":
            d = f["referencedDecl"]
            if d["kind"] in ("VarDecl", "ParmVarDecl"):
                v = self.rv(f)
                return self.call_value(v, args, n)
            q = self.tu.idq.get(d["id"])
            name = d.get("name")
            if q is None and name in self.tu.funcs and "inner" in self.tu.funcs[name][0]:
                q = name
            if q is None:
                return self.external("::" + name, None, args, n)
            return self.call_repo(q, d, None, args, n)
        if f["kind"] == "MemberExpr":
            return self.e_CXXMemberCallExpr(n)
        raise Unsupported("call through " + f["kind"])

    def call_value(self, v, args, n):
        if isinstance(v, Closure):
            return self.call_closure(v, args, n)
        raise Unsupported("indirect call")

    def e_LambdaExpr(self, n):
        return Closure(n, self.frame(), self.frame().get("this"))

    def call_closure(self, v, args, n):
        # the call operator's body, evaluated in the enclosing frame (captures by reference)
        from . import stl
        op = stl.lambda_body(v.node)
        frame = dict(v.frame)
        return self.run_body(op, args, frame, op.get("name"))

    def bind_args(self, decl, args, evald=None):
        """evaluate actuals for formals -> list of bound values/locs"""
        ps = params_of(decl)
        out = []
        for i, p in enumerate(ps):
            t = self.ty(p)
            if evald is not None and i < len(evald):
                out.append(evald[i])
                continue
            if i < len(args) and args[i].get("kind") != "CXXDefaultArgExpr":
                a = args[i]
                out.append(self.lv(a) if t[0] == "ref" else self.rv(a))
            else:
                out.append(self.default_arg(p, t))
        return out

    def default_arg(self, p, t):
        if t[0] == "ptr":
            init = [x for x in p.get("inner", []) if x.get("kind")]
            return NULL
        init = [x for x in p.get("inner", []) if x.get("kind")]
        if init:
            if t[0] == "ref":
                return self.lv(init[0])
            return self.rv(init[0])
        # default lives on another declaration
        raise Unsupported("default argument")

    rettype = None

    def rtype(self, decl):
        s = decl["type"]["qualType"]
        depth = 0
        i = 0
        while i < len(s):
            if s[i] in "<":
                depth += 1
            elif s[i] == ">":
                depth -= 1
            elif s[i] == "(" and depth == 0:
                break
            i += 1
        return self.tys(s[:i].strip())

    def run_body(self, decl, args, frame, name, evald=None):
        body = body_of(decl)
        if body is None:
            raise Unsupported("no body for " + str(name))
        if self.depth > 12:
            raise Unsupported("inlining too deep at " + str(name))
        vals = self.bind_args(decl, args, evald)
        for p, v in zip(params_of(decl), vals):
            t = self.ty(p)
            if t[0] == "ref":
                if not isinstance(v, Loc):
                    v = self.new_cell(t[1], v, p.get("name", ""))
                frame[p["id"]] = v
            else:
                if isinstance(v, Loc):
                    v = self.read(v)
                frame[p["id"]] = self.new_cell(t, v, p.get("name", ""))
        self.st.frames.append(frame)
        nfr = len(self.st.frames)
        saved = self.curnode
        self.rettype = (self.rettype or []) + [self.rtype(decl)]
        nof = self.nofork
        self.nofork = 0
        self.depth += 1
        try:
            # an inlined body may return from inside merged branches: forbid merging there via NeedFork in s_ReturnStmt
            self.nofork = 0
            self.stmt(body)
            ret = None
        except ReturnEx as r:
            ret = r.v
        finally:
            self.depth -= 1
            self.nofork = nof
            self.rettype = self.rettype[:-1]
            self.curnode = saved
            del self.st.frames[nfr - 1:]
        if self.mode == "collect" and ret is None:
            rt = self.rtype(decl)
            if rt[0] not in ("void", "ref"):
                try:
                    ret = self.fresh(rt, "ret")
                except Unsupported:
                    ret = Opaque()
        return ret

    def find_body(self, q, d):
        """definition of the repo function d (by qualified name and parameter types)"""
        fs = self.tu.funcs.get(q, [])
        if len(fs) == 1 and (d is None or len(self.tu.decls.get(q, [])) == 1):
            return fs[0]
        want = d["type"]["qualType"] if d is not None else None
        for f in fs:
            if f["id"] == (d or {}).get("id"):
                return f
        for f in fs:
            if f["type"]["qualType"] == want:
                return f
        if len(fs) == 1:
            return fs[0]
        if d is not None:
            np = want.count(",")
            c = [f for f in fs if f["type"]["qualType"].split("(")[0] == want.split("(")[0] and f["type"]["qualType"].count(",") == np]
            if len(c) == 1:
                return c[0]
        return None

    def contract_for(self, q, cls=None, decl=None):
        c = self.contracts.get(q)
        if isinstance(c, list):
            for x in c:
                if x.matches(decl):
                    return x
            return None
        return c

    def call_repo(self, q, d, this, args, n, virtual=False, evald=None):
        decl = self.tu.byid.get(d["id"], d) if d is not None else None
        if d is not None and decl is not None and "inner" not in decl and decl.get("kind") is None:
            decl = d
        h = self.builtins.get(q)
        if h:
            return h(self, this, args, n)
        c = self.contract_for(q, None, decl)
        if c is not None and not (self.inline_only and q in self.inline_only):
            self.calls[q] = self.calls.get(q, 0) + 1
            vals = self.bind_args(self.best_decl(q, decl), args, evald)
            return c.apply(self, this, vals, n)
        if virtual:
            raise Unsupported("virtual call without contract: " + q)
        f = self.find_body(q, decl)
        if f is None:
            f = self.other_tu(q, decl)
        if f is None:
            raise Unsupported("no contract and no body for " + q)
        self.inlined.add(q)
        frame = {}
        if this is not None:
            frame["this"] = this
        return self.run_body(f, args, frame, q, evald)

    inline_only = None

    def best_decl(self, q, decl):
        if decl is not None and decl.get("inner") and params_of(decl):
            return decl
        ds = self.tu.decls.get(q, [])
        for x in ds:
            if decl is None or x["type"]["qualType"] == decl["type"]["qualType"]:
                if params_of(x) or not x["type"]["qualType"].split("(", 1)[1].startswith("addr"):
                    return x
        return decl

    def other_tu(self, q, decl):
        return None

    def e_CXXMemberCallExpr(self, n):
        me = self.callee(n["inner"][0])
        args = n["inner"][1:]
        if me["kind"] != "MemberExpr":
            raise Unsupported("member call")
        base = me["inner"][0]
        name = me.get("name")
        mid = me.get("referencedMemberDecl")
        q = self.tu.idq.get(mid)
        d = self.tu.byid.get(mid)
        bt = self.ty(base)
        if bt[0] == "ref":
            bt = bt[1]
        if q is not None and d is not None and d.get("kind") in ("CXXMethodDecl", "CXXConversionDecl", "CXXDestructorDecl"):
            if me.get("isArrow"):
                v = self.rv(base)
                this = v.loc if isinstance(v, PVar) else self.deref(v, self.ty(base), n)
            else:
                this = self.lv(base)
            is_this = self.strip(base)["kind"] == "CXXThisExpr"
            virt = bool(d.get("virtual")) or "override" in str([c.get("kind") for c in d.get("inner", [])]).lower()
            if virt and not self.is_final(d, bt):
                rq = self.dyn_target(q, this, d)
                if rq is not None:
                    q, d, virt = rq[0], rq[1], False
            else:
                virt = False
            return self.call_repo(q, d, this, args, n, virtual=virt)
        # library object
        if me.get("isArrow"):
            bt0 = self.ty(base)
            v = self.rv(base)
            this = v.loc if isinstance(v, PVar) else self.deref(v, bt0, n)
            bt = bt0[1]
        else:
            this = self.lv(base)
        return self.external(name, (this, bt), args, n)

    def strip(self, n):
        while n["kind"] in ("ImplicitCastExpr", "ParenExpr"):
            n = n["inner"][0]
        return n

    def is_final(self, d, bt):
        if any(c.get("kind") == "FinalAttr" for c in d.get("inner", [])):
            return True
        return False

    def dyn_target(self, q, this, d):
        """virtual call on an object whose dynamic class the contract fixes"""
        dyn = self.opts.get("dynamic_class")
        if dyn and this.root[0] == "obj" and self.cx is not None and self.cx.this is not None and \
                this.root[2].eq(self.cx.this.root[2]):
            name = q.split("::")[-1]
            c = dyn
            seen = [c]
            while c:
                cq = c + "::" + name
                for x in self.tu.decls.get(cq, []):
                    if x["type"]["qualType"] == d["type"]["qualType"]:
                        return cq, x
                cn = self.tu.classes.get(c)
                b = cn.get("bases", []) if cn else []
                c = self.resolve(b[0]["type"].get("desugaredQualType") or b[0]["type"]["qualType"]) if b else None
        return None

    def e_CXXRewrittenBinaryOperator(self, n):
        """a comparison made from <=> or =="""
        m = self.strip(n["inner"][0])
        if m["kind"] == "CXXOperatorCallExpr":
            op = self.callee(m["inner"][0]).get("referencedDecl", {}).get("name", "")[8:]
            xs = [self.strip(x) for x in m["inner"][1:]]

            def ss(x):
                return x["kind"] == "CXXOperatorCallExpr" and self.callee(x["inner"][0]).get("referencedDecl", {}).get("name") == "operator<=>"
            if len(xs) == 2 and op in self.CMP and (ss(xs[0]) or ss(xs[1])):
                y = xs[0] if ss(xs[0]) else xs[1]
                if not ss(xs[0]):
                    op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                a, b = y["inner"][1:]
                if self.ty(a)[0] == "str" and self.ty(b)[0] == "str":
                    from . import stl
                    x, z = self.rv(a), self.rv(b)
                    if isinstance(x, Rec) and isinstance(z, Rec):
                        return self.CMP[op](stl.str_rank(x), stl.str_rank(z))
                return self.compare(op, self.rv(a), self.rv(b), self.ty(a), self.ty(b))
        return self.ev(m)

    def e_CXXOperatorCallExpr(self, n):
        f = self.callee(n["inner"][0])
        args = n["inner"][1:]
        d = f.get("referencedDecl", {})
        name = d.get("name", "")
        q = self.tu.idq.get(d.get("id"))
        if q is not None and d.get("kind") == "CXXMethodDecl":
            if name == "operator=" and self.tu.byid.get(d["id"], {}).get("isImplicit"):
                v = self.rv(args[1])
                l = self.lv(args[0])
                self.write(l, v)
                return l
            if q.endswith("safe_error_helper::operator="):
                self.ev(args[0])
                return Opaque("error")
            base = args[0]
            v = self.ev(base)
            if isinstance(v, Closure):
                return self.call_closure(v, args[1:], n)
            this = v if isinstance(v, Loc) else self.new_cell(self.ty(base), v, "tmp")
            return self.call_repo(q, self.tu.byid.get(d["id"], d), this, args[1:], n)
        if q is not None:
            return self.call_repo(q, d, None, args, n)
        if name == "operator()":
            v = self.ev(args[0])
            if isinstance(v, Loc):
                v = self.read(v)
            if isinstance(v, Closure):
                return self.call_closure(v, args[1:], n)
        return self.external(name, None, args, n, op=True)

    def e_CXXConstructExpr(self, n):
        t = self.ty(n)
        args = [a for a in n.get("inner", [])]
        return self.construct(t, args, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def construct(self, t, args, n, dest=None):
        from . import stl
        if t[0] == "cls":
            cls = t[1]
            if len(args) == 1:
                at = self.ty(args[0])
                at = at[1] if at[0] == "ref" else at
                if at == t and n.get("kind") in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    return self.rv(args[0])
            if cls.endswith("safe_error_helper"):
                return Opaque("error")
            loc = self.new_cell(t, Rec(t, {nm: self._raw(ft, nm) for _, nm, ft, _ in self.fields(cls)}), "obj")
            self.run_ctor(cls, loc, args, n)
            return self.st.cells[loc.root[1]]
        return stl.construct(self, t, args, n)

    def _raw(self, t, name):
        if t[0] in ("vec", "str", "pq"):
            return self.default_value(t, name)
        try:
            return self.unfix(t, self.fresh_noassume(t, name))
        except Unsupported:
            return z3.Const(self.name(name), INT)

    def run_ctor(self, cls, loc, args, n, evald=None):
        """constructor: member initialisers, in-class defaults, body"""
        ctors = [c for c in self.tu.decls.get(cls + "::" + cls.split("::")[-1], [])]
        want = n.get("ctorType", {}).get("qualType") if n else None
        ctor = None
        for c in ctors:
            if want and c["type"]["qualType"] == want and (c.get("inner") and body_of(c)):
                ctor = c
        if ctor is None:
            for c in self.tu.decls.get(cls + "::" + cls.split("::")[-1], []):
                if want and c["type"]["qualType"] == want:
                    ctor = c
        if ctor is None:
            cs = [c for c in ctors if body_of(c) is not None and len(params_of(c)) >= len(args)]
            if len(cs) == 1:
                ctor = cs[0]
        if ctor is None or body_of(ctor) is None:
            if not args:
                self.default_init(cls, loc, None)
                return
            raise Unsupported("constructor of " + cls)
        frame = {"this": loc}
        vals = self.bind_args(ctor, args, evald)
        for p, v in zip(params_of(ctor), vals):
            t = self.ty(p)
            if t[0] == "ref":
                frame[p["id"]] = v if isinstance(v, Loc) else self.new_cell(t[1], v, p.get("name"))
            else:
                frame[p["id"]] = self.new_cell(t, self.read(v) if isinstance(v, Loc) else v, p.get("name"))
        self.st.frames.append(frame)
        nfr = len(self.st.frames)
        self.rettype = (self.rettype or []) + [("void",)]
        self.depth += 1
        try:
            inits = [c for c in ctor.get("inner", []) if c.get("kind") == "CXXCtorInitializer"]
            done = set()
            for i in inits:
                m = i.get("anyInit")
                if not m:
                    if i.get("baseInit") and i.get("inner"):
                        bq = self.resolve(i["baseInit"].get("desugaredQualType") or i["baseInit"]["qualType"])
                        e = i["inner"][0]
                        while e["kind"] in ("ExprWithCleanups", "CXXBindTemporaryExpr"):
                            e = e["inner"][0]
                        if bq and e["kind"] in ("CXXConstructExpr", "CXXInheritedCtorInitExpr"):
                            self.run_ctor(bq, loc, e.get("inner", []), e)
                    continue
                nm = m.get("name")
                done.add(nm)
                fl = self.field(loc, nm)
                e = i["inner"][0]
                if e["kind"] == "CXXDefaultInitExpr":
                    self.field_default(cls, nm, fl)
                    continue
                try:
                    v = self.init_value(e, fl.t)
                except Unsupported:
                    if fl.t and fl.t[0] in ("opaque", "cls"):
                        continue
                    raise
                if isinstance(v, Opaque):
                    continue
                self.write(fl, v)
            self.default_init(cls, loc, done)
            try:
                self.stmt(body_of(ctor))
            except ReturnEx:
                pass
        finally:
            self.depth -= 1
            self.rettype = self.rettype[:-1]
            del self.st.frames[nfr - 1:]

    def field_default(self, cls, nm, fl):
        for o, n2, ft, node in self.fields(cls):
            if n2 == nm:
                init = [x for x in node.get("inner", []) if x.get("kind") and not x["kind"].endswith("Attr")]
                if init:
                    try:
                        v = self.init_value(init[0], ft)
                    except Unsupported:
                        return
                    if not isinstance(v, Opaque):
                        self.write(fl, v)

    def default_init(self, cls, loc, done):
        for o, nm, ft, node in self.fields(cls):
            if done is not None and (nm in done or o != cls):
                continue
            init = [x for x in node.get("inner", []) if x.get("kind") and not x["kind"].endswith("Attr")]
            fl = self.field(loc, nm)
            if init:
                self.field_default(cls, nm, fl)
            elif ft[0] in ("vec", "str", "pq"):
                self.write(fl, self.default_value(ft, nm))
            elif ft[0] == "ptr" and not isinstance(self.shape(ft), Rec):
                pass

    def new_object(self, cls, args, n, evald=None):
        ref = self.st.alloc
        r = z3.Const(self.name("new"), INT)
        self.st.pc.append(r == ref)
        self.st.pc.append(r > 0)
        self.st.alloc = z3.simplify(ref + 1)
        loc = self.obj(r, cls)
        self.run_ctor(cls, loc, args, n, evald)
        return r

    def e_CXXNewExpr(self, n):
        t = self.ty(n)
        inner = n.get("inner", [])
        if n.get("isArray"):
            size = self.rv(inner[0])
            return self.new_array(t[1], size)
        if t[1][0] == "cls":
            e = inner[0] if inner else None
            return self.new_object(t[1][1], e.get("inner", []) if e else [], e)
        if t[1][0] in ("vec", "str"):
            v = self.default_value(t[1], "new")
            r = z3.Const(self.name("new"), INT)
            self.st.pc.append(z3.And(r == self.st.alloc, r > 0))
            self.st.alloc = z3.simplify(self.st.alloc + 1)
            self.write(Loc(("mem", str(t[1]), r, t[1]), (("i", z3.IntVal(0)),), t[1]), v)
            return r
        raise Unsupported("new " + str(t))

    def new_array(self, et, size):
        b = z3.Const(self.name("blk"), INT)
        self.oblige("bounds", size >= 0, "array size is not negative")
        self.st.pc.append(z3.And(b == self.st.alloc, b > 0, self.BLEN(b) == size))
        self.st.alloc = z3.simplify(self.st.alloc + 1)
        return PMem(et, b, z3.IntVal(0))

    def e_CXXDeleteExpr(self, n):
        return None

    def e_InitListExpr(self, n):
        t = self.ty(n)
        inner = n.get("inner", n.get("array_filler", []))
        if t[0] == "cls":
            fs = self.fields(t[1])
            vals = {}
            for (o, nm, ft, node), e in zip(fs, inner):
                vals[nm] = self.unfix(ft, self.init_value(e, ft))
            return Rec(t, vals)
        if t[0] == "arr":
            v = self.fresh_noassume(t, "arr")
            data = v.d["data"]
            elems = n.get("inner", [])
            if "array_filler" in n:
                elems = [e for e in n["array_filler"] if e.get("kind") != "ImplicitValueInitExpr"]
                z = self.zero(t[1])
                data = tmap2(lambda a, x: z3.K(INT, x), data, z)
            for i, e in enumerate(elems):
                data = tmap2(lambda a, x: z3.Store(a, i, x), data, self.rv(e))
            return Rec(t, {"len": z3.IntVal(t[2]), "data": data})
        if len(inner) == 1:
            return self.ev(inner[0])
        if not inner:
            return self.zero(t)
        raise Unsupported("initialiser list of %s" % (t,))

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(n["inner"][0])

    def external(self, name, this, args, n, op=False):
        from . import stl
        return stl.call(self, name, this, args, n, op)


class LoopCtx:
    """what the invariant templates see at a loop head"""

    def __init__(self, ex, node, entry, wset):
        self.ex, self.node, self.entry, self.wset = ex, node, entry, wset
        self.wcells = set(r[1] for r, _ in wset if r[0] == "cell")
        self._names = {}
        self.wother = [r for r, _ in wset if r[0] != "cell"]

    def cells(self):
        """(name, loc) of variables in scope, innermost frame"""
        out = []
        seen = set()
        for k, l in self.ex.st.frames[-1].items():
            if k == "this":
                continue
            if isinstance(l, Loc) and l.root[0] == "cell":
                c = l.root[1]
                if c in seen:
                    continue
                seen.add(c)
                nm = (self.ex.cellname.get(c) or "t") + "#%d" % c
                out.append((nm, l))
            elif isinstance(l, Loc):
                out.append((str(k), l))
        return out

    def modified(self, nm):
        l = self._names.get(nm)
        if l is None:
            return True
        if l.root[0] == "cell":
            return l.root[1] in self.wcells
        return True

    def ints(self):
        """(name, state -> term) of integer variables, iterator indexes and int out-parameters"""
        if hasattr(self, "_ints"):
            return self._ints
        out = []
        ex = self.ex

        def add(nm, l, st):
            v = None
            try:
                v = ex.read(l, st, facts=False)
            except Unsupported:
                return
            if isinstance(v, It):
                self._names[nm] = l
                out.append((nm, lambda s, l=l: ex.read(l, s, facts=False).idx))
            elif isinstance(v, PElem):
                self._names[nm] = l
                out.append((nm, lambda s, l=l: ex.read(l, s, facts=False).idx))
            elif isinstance(v, PMem):
                self._names[nm] = l
                out.append((nm, lambda s, l=l: ex.read(l, s, facts=False).off))
            elif isinstance(v, PVar):
                l2 = v.loc
                if l2.t and l2.t[0] in ("int",):
                    if l2.root[0] == "cell" and l2.root[1] not in ex.st.cells:
                        return
                    self._names["*" + nm] = l2
                    out.append(("*" + nm, lambda s, l=l2: ex.read(l, s, facts=False)))
            elif is_z3(v) and z3.is_int(v) and l.t and l.t[0] == "int":
                self._names[nm] = l
                out.append((nm, lambda s, l=l: ex.read(l, s, facts=False)))
        for nm, l in self.cells():
            add(nm, l, self.entry)
        self._ints = out
        return out

    def bools(self):
        """(name, state -> formula) of boolean variables"""
        ex = self.ex
        out = []
        for nm, l in self.cells():
            if l.t == ("bool",):
                self._names[nm] = l
                out.append((nm, lambda s, l=l: ex.as_bool(ex.read(l, s, facts=False))))
        return out

    def lens(self):
        out = []
        ex = self.ex
        for nm, l in self.cells():
            if l.t and l.t[0] in ("vec", "str"):
                self._names["len(%s)" % nm] = l
                out.append(("len(%s)" % nm, lambda s, l=l: ex.read(l.f("len", None), s, facts=False)))
        for nm, l in self.containers():
            out.append((nm, lambda s, l=l: ex.read(l.f("len", None), s, facts=False)))
        return out

    def containers(self):
        """containers iterated over (reached through iterators or range-for)"""
        out = []
        seen = set()
        for nm, l in self.cells():
            try:
                v = self.ex.read(l, self.entry, facts=False)
            except Unsupported:
                continue
            if isinstance(v, (It, PElem)):
                k = str(v.loc)
                if k not in seen:
                    seen.add(k)
                    nm2 = "len*(%s)" % nm
                    self._names[nm2] = v.loc
                    out.append((nm2, v.loc))
        return out


class Cx:
    """contract context: pre/post states, arguments, result"""

    def __init__(self, ex, this, args, pre, names):
        self.ex, self.this, self.args, self.pre = ex, this, args, pre
        self.post = None
        self.ret = None
        self.names = names
        self.g = {}

    def __getitem__(self, k):
        return self.args[self.names.index(k)] if isinstance(k, str) else self.args[k]

    def fld(self, st, name, ref=None, cls=None):
        l = self.ex.field(self.this if ref is None else self.ex.obj(ref, cls), name)
        return self.ex.read(l, st, facts=False)

    def at(self, st, k):
        """value a pointer / reference argument designates, in state st"""
        v = self[k]
        l = v if isinstance(v, Loc) else self.ex.deref(v)
        return self.ex.read(l, st, facts=False)

    def loc(self, k):
        v = self[k]
        return v if isinstance(v, Loc) else self.ex.deref(v)


class Contract:
    """pre/post/frame of one function. Subclass or pass callables.
    pre(c), post(c) -> [(name, formula)], mods(c) -> [Loc]"""

    def __init__(self, q, args=(), pre=None, post=None, mods=None, ret=None, setup=None, inv=None, meas=None, opts=None, sig=None,
                 cls=None, assumed=False, effects=None, model=None):
        self.q, self.names = q, list(args)
        self._pre, self._post, self._mods = pre, post, mods
        self.ret, self.setup, self.inv, self.meas = ret, setup, inv, meas
        self.opts = opts or {}
        self.sig, self.cls, self.assumed = sig, cls, assumed
        self.effects = effects
        self.model = model

    def matches(self, decl):
        return self.sig is None or decl is None or self.sig(decl)

    def pre(self, c):
        return self._pre(c) if self._pre else []

    def post(self, c):
        return self._post(c) if self._post else []

    def mods(self, c):
        return self._mods(c) if self._mods else []

    def apply(self, ex, this, vals, n):
        """at a call site: only the contract is known"""
        if self.assumed:
            ex.trusted.add(self.q)
        c = Cx(ex, this, vals, ex.st.clone() if ex.mode != "collect" else ex.st, self.names)
        for nm, f in self.pre(c):
            if nm in self.opts.get("memory", ()):
                ex.assume(f)  # a limit of the machine's memory, listed under assumptions
                continue
            ex.oblige("call-pre", f, "precondition of %s: %s" % (self.q.split("::")[-1], nm))
        if self.effects:
            return self.effects(ex, c, n)
        if ex.spec is not None and self.mods(c):
            for l in self.mods(c):
                if not (l.root[0] == "cell" and l.root[1] > ex.spec):
                    raise NeedFork()
        for l in self.mods(c):
            old = ex.read(l, facts=False) if l.t and l.t[0] == "iter" else None
            ex.write(l, ex.havoc_value(l.t, old, "out") if isinstance(old, It) else ex.fresh(l.t, "out"))
        if self.ret is not None:
            c.ret = self.ret(c) if callable(self.ret) else ex.fresh(self.ret, "ret")
        c.post = ex.st
        if ex.mode != "collect":
            for nm, f in self.post(c):
                ex.assume(f)
        return c.ret


def verify(tu, contracts, con, deadline=120, target=None):
    """discharge every obligation of the function con.q -> (Exec, error|None)"""
    opts = dict(con.opts)
    if deadline:
        opts["deadline"] = time.time() + deadline
    ex = Exec(tu, contracts, opts)
    q = target or con.q
    ex.fname = q
    err = None
    try:
        fs = [f for f in tu.funcs.get(q, []) if con.matches(f)]
        if not fs:
            raise Unsupported("no definition of %s in %s" % (q, tu.rel))
        f = fs[0]
        con_verify(ex, f, con, q)
        for (_, line), left in ex.loops.items():
            if not left:  # contradictory invariants would look like this
                raise Unsupported("no path leaves the loop at " + line)
    except Unsupported as e:
        err = "unsupported: " + str(e)
    except RecursionError:
        err = "unsupported: recursion"
    return ex, err


def con_verify(ex, f, con, q):
    st = State()
    st.alloc = z3.Int("alloc!0")
    st.pc.append(st.alloc > 0)
    ex.st = st
    cls = con.cls or f.get("_cls")
    isctor = f["kind"] == "CXXConstructorDecl"
    ismethod = f["kind"] in ("CXXMethodDecl", "CXXConstructorDecl") and f.get("storageClass") != "static" and not _is_static(ex, f)
    this = None
    if ismethod:
        ref = z3.Int("this!0")
        st.pc.append(z3.And(ref > 0, ref < st.alloc))
        this = ex.obj(ref, cls)
    if con.setup:
        args = con.setup(ex, f, this)
    else:
        args = default_args(ex, f)
    c = Cx(ex, this, args, None, con.names)
    ex.cx = c
    ex.inv_gen, ex.meas_gen = con.inv, con.meas
    for fo in con.opts.get("axioms", lambda ex: [])(ex):
        ex.assume(fo)  # definitions of specification functions
    for nm, fo in con.pre(_with(c, ex.st)):
        ex.assume(fo)
    # vacuity guard: the precondition must be satisfiable
    r = smt.consistent(ex.st.pc)
    if r == z3.unsat:
        ex.results.append(Result("vacuity", "precondition is satisfiable", q, "refuted", "z3"))
        return
    ex.results.append(Result("vacuity", "precondition not contradictory (%s)" % r, q, "proved", "z3"))
    pre = ex.st.clone()
    c.pre = pre
    reached = [0]

    def run():
        ex.paths += 1
        ex.writes = set()
        c.post = None
        frame = {"this": this} if this is not None else {}
        mark = ex.cellctr
        if isctor:
            ret = ex.run_ctor(cls, this, args, {"ctorType": f["type"]}, evald=args)
        else:
            ret = ex.run_body(f, [], frame, q, evald=args)
        c.post = ex.st
        c.ret = ex.read(ret) if isinstance(ret, Loc) and con.opts.get("deref_ret") else ret
        reached[0] += 1
        ex.curnode = f
        for nm, fo in con.post(c):
            ex.oblige("post", fo, nm)
        check_frame(ex, con, c, mark)
        # the end of a path must be reachable at least once
        if reached[0] == 1 or not getattr(ex, "_cover", False):
            if smt.consistent(ex.st.pc) != z3.unsat:
                ex._cover = True
    ex.explore(run)
    if not getattr(ex, "_cover", False):
        ex.results.append(Result("vacuity", "some path reaches the postcondition", q, "refuted", "z3"))
    else:
        ex.results.append(Result("vacuity", "a path reaches the postcondition", q, "proved", "z3"))


def _with(c, st):
    c.pre = st
    c.post = st
    return c


def _is_static(ex, f):
    if f.get("storageClass") == "static":
        return True
    for d in ex.tu.decls.get(f.get("_q"), []):
        if d.get("storageClass") == "static" and d["type"]["qualType"] == f["type"]["qualType"]:
            return True
    return False


def default_args(ex, f):
    args = []
    for p in params_of(f):
        t = ex.ty(p)
        nm = p.get("name") or "a"
        if t[0] == "ref":
            args.append(ex.new_cell(t[1], ex.fresh(t[1], nm), nm))
        elif t[0] == "ptr" and t[1][0] in ("int", "fval", "bool"):
            args.append(PVar(ex.new_cell(t[1], ex.fresh(t[1], "*" + nm), "*" + nm)))
        elif t[0] == "ptr" and t[1][0] in ("str", "vec"):
            args.append(PVar(ex.new_cell(t[1], ex.fresh(t[1], "*" + nm), "*" + nm)))
        else:
            args.append(ex.fresh(t, nm))
    return args


def check_frame(ex, con, c, mark):
    """every location written is in the frame, local, or freshly allocated"""
    if con.opts.get("noframe"):
        return
    allowed = con.mods(c)

    def ok(root):
        if root[0] == "cell":
            if root[1] > mark:
                return True
            return any(l.root == root for l in allowed)
        if root[0] == "heap":
            for l in allowed:
                if l.root[0] == "heap" and l.root[1:3] == root[1:3]:
                    if root[3] is not None and l.root[3].eq(root[3]):
                        return True
                if l.root[0] == "obj" and root[3] is not None and l.root[2].eq(root[3]):
                    return True
            if root[3] is None:
                return False
            v, _, _ = smt.prove(ex.st.pc, z3.Or([root[3] >= c.pre.alloc] + [root[3] == l.root[-1 if l.root[0] == "heap" else 2] for l in allowed
                                                 if l.root[0] in ("heap", "obj")]), thorough=False, tmo=2000)
            return v == "proved"
        if root[0] == "mem":
            if root[2] is None:
                return False
            v, _, _ = smt.prove(ex.st.pc, z3.Or([root[2] >= c.pre.alloc] + [root[2] == l.root[2] for l in allowed if l.root[0] == "mem"]),
                                thorough=False, tmo=2000)
            return v == "proved"
        return True
    bad = [r for r, _ in ex.writes if not ok(r)]
    ex.results.append(Result("frame", "writes only what the contract allows" + (": also " + str(bad[:3]) if bad else ""), ex.where(),
                             "proved" if not bad else "unknown", "frame-check"))
