"""Assumed contracts of the C++ library: containers, strings, smart pointers."""
import z3
from .types_ import Rec, Unsupported, tmap, tmap2, is_z3, INT, I64_MIN, I64_MAX


def register(ex):
    B = ex.builtins
    # an fval is carried as its 64-bit pattern: these two are the identity
    B["cottontail::fval2addr"] = lambda ex, this, args, n: ex.rv(args[0])
    B["cottontail::addr2fval"] = lambda ex, this, args, n: ex.rv(args[0])
    B["cottontail::safe_set"] = lambda ex, this, args, n: ex.new_cell(None, _op(), "error")
    B["cottontail::shared_array"] = lambda ex, this, args, n: ex.new_array(ex.ty(n)[1], ex.rv(args[0]))
    B["cottontail::CacheGate::wait"] = lambda ex, this, args, n: None
    B["cottontail::CacheGate::open"] = lambda ex, this, args, n: None


def _op():
    from .ex import Opaque
    return Opaque("error")


def length(ex, loc, st=None):
    return ex.read(loc.f("len", ("int", 64, False)), st)


def set_len(ex, loc, v):
    ex.write(loc.f("len", None), v)


def forall_lt(n, f, pats=None):
    i = z3.Int("i!q")
    body = f(i)
    return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), body), patterns=pats(i) if pats else [])


def leaves(v):
    if isinstance(v, Rec):
        for x in v.d.values():
            yield from leaves(x)
    else:
        yield v


def copy_prefix(ex, new, old, n, off_new=0, off_old=0):
    """new[off_new+i] == old[off_old+i] for 0<=i<n, leafwise"""
    for a, b in zip(leaves(new), leaves(old)):
        j = z3.Int("j!q")
        # indexed by the new array, so a read of it triggers
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= off_new, j < off_new + n), z3.Select(a, j) == z3.Select(b, j - off_new + off_old)),
                            patterns=[z3.Select(a, j)]))


def vec_append(ex, loc, src_data, off, n):
    """loc.insert(end, src[off..off+n))"""
    v = ex.read(loc, facts=False)
    l = v.d["len"]
    nd = tmap(lambda a: z3.Const(ex.name("app"), a.sort()), v.d["data"])
    copy_prefix(ex, nd, v.d["data"], l)
    copy_prefix(ex, nd, src_data, n, off_new=l, off_old=off)
    nl = z3.simplify(l + n)
    ex.assume(nl <= 1 << 60)
    ex.write(loc, Rec(v.t, {"len": nl, "data": nd}))


def string_value(ex, v):
    """const char* / std::string value -> (len, data) record"""
    from .ex import Loc, PElem, Opaque
    if isinstance(v, Loc):
        v = ex.read(v)
    if isinstance(v, PElem):
        s = ex.read(v.loc)
        if z3.is_int_value(z3.simplify(v.idx)) and z3.simplify(v.idx).as_long() == 0:
            return s
        raise Unsupported("string from interior pointer")
    if isinstance(v, Rec) and v.t[0] in ("str",):
        return v
    if isinstance(v, Rec) and "len" in v.d:
        return v
    if isinstance(v, Opaque):
        return v
    raise Unsupported("string from %r" % (v,))


def str_eq(ex, a, b):
    from .ex import Opaque
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return z3.Const(ex.name("opq"), z3.BoolSort())
    la, lb = z3.simplify(a.d["len"]), z3.simplify(b.d["len"])
    for x, y in ((a, b), (b, a)):
        l = z3.simplify(x.d["len"])
        if z3.is_int_value(l) and l.as_long() <= 64:
            return z3.And([la == lb] + [z3.Select(a.d["data"], i) == z3.Select(b.d["data"], i) for i in range(l.as_long())])
    i = z3.Int("i!q")
    e = z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < la), z3.Select(a.d["data"], i) == z3.Select(b.d["data"], i)))
    return z3.And(la == lb, e)


RANK = z3.Function("string.rank", INT, z3.ArraySort(INT, INT), z3.RealSort())


def str_rank(s):
    """strings are linearly ordered; any countable linear order embeds in the reals"""
    return RANK(s.d["len"], s.d["data"])


def vec_eq(ex, a, b):
    la, lb = a.d["len"], b.d["len"]
    i = z3.Int("i!q")
    es = [z3.Select(x, i) == z3.Select(y, i) for x, y in zip(leaves(a.d["data"]), leaves(b.d["data"]))]
    return z3.And(la == lb, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < la), z3.And(es))))


def construct(ex, t, args, n):
    from .ex import Loc, PVar, PElem, NULL, Opaque, It, Closure
    k = t[0]
    args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
    if k == "ptr":
        if not args:
            return NULL
        v = ex.rv(args[0])
        # shared_ptr(T*, deleter) and conversions keep the pointer
        return v
    if k == "str":
        if not args:
            return ex.const_str(b"")
        if len(args) == 1:
            v = ex.ev(args[0])
            return string_value(ex, v)
        if len(args) == 2:
            t0 = ex.ty(args[0])
            if t0[0] == "int":
                cnt, ch = ex.rv(args[0]), ex.rv(args[1])
                return Rec(("str",), {"len": cnt, "data": z3.K(INT, ch)})
            a, b = ex.rv(args[0]), ex.rv(args[1])
            if isinstance(a, It) and isinstance(b, It):
                return substring(ex, ex.read(a.loc), a.idx, b.idx - a.idx)
            return chars_at(ex, a, b)
        if len(args) == 3:
            s = string_value(ex, ex.ev(args[0]))
            return substring(ex, s, ex.rv(args[1]), ex.rv(args[2]))
        raise Unsupported("string constructor")
    if k in ("vec", "pq"):
        if not args:
            return ex.empty_vec(t)
        t0 = ex.ty(args[0])
        t0 = t0[1] if t0[0] == "ref" else t0
        if t0[0] == k:
            return ex.rv(args[0])
        if t0[0] == "int":
            cnt = ex.rv(args[0])
            v = ex.empty_vec(t)
            if len(args) > 1 and ex.ty(args[1])[0] != "opaque":
                x = ex.unfix(t[1], ex.rv(args[1]))
            else:
                x = ex.unfix(t[1], ex.zero(t[1]))
            ex.assume(cnt <= 1 << 60)
            return Rec(t, {"len": cnt, "data": tmap2(lambda a, y: z3.K(INT, y), v.d["data"], x)})
        v = ex.rv(args[0])
        if isinstance(v, Rec) and v.t[0] in ("vec", "arr"):
            return Rec(t, v.d)
        raise Unsupported("vector constructor from %s" % (t0,))
    if k == "pair":
        if len(args) == 2:
            return Rec(t, {"first": ex.unfix(t[1], ex.rv(args[0])), "second": ex.unfix(t[2], ex.rv(args[1]))})
        return ex.rv(args[0])
    if k == "iter":
        if args:
            return ex.rv(args[0])
        return Opaque("iter", t)
    if k == "opaque" and len(args) == 1:
        try:
            return ex.rv(args[0])
        except Unsupported:
            return Opaque(t[1], t)
    if k == "opaque":
        return Opaque(t[1], t)
    if k in ("set", "map"):
        if not args:
            sh = ex.fresh_noassume(t, "set")
            if isinstance(sh, Rec):
                sh = sh.set("has", z3.K(sh.d["has"].sort().domain(), z3.BoolVal(False))).set("size", z3.IntVal(0))
            return sh
        return ex.rv(args[0])
    if len(args) == 1:
        return ex.rv(args[0])
    raise Unsupported("construct %s" % (t,))


def substring(ex, s, pos, n):
    d = z3.Const(ex.name("sub"), z3.ArraySort(INT, INT))
    j = z3.Int("j!q")
    src = s.d["data"]
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(d, j) == z3.Select(src, pos + j)), patterns=[z3.Select(d, j)]))
    return Rec(("str",), {"len": z3.simplify(n), "data": d})


def chars_at(ex, p, n):
    from .ex import PElem, PMem
    if isinstance(p, PElem):
        base = ex.read(p.loc)
        ex.oblige("bounds", z3.And(p.idx >= 0, n >= 0, p.idx + n <= base.d["len"]), "characters read lie inside the text")
        return substring(ex, base, p.idx, n)
    if isinstance(p, PMem):
        src = tmap(lambda a: z3.Select(a, p.blk), ex.memmap(ex.st, p.t))
        ex.oblige("bounds", z3.And(p.off >= 0, n >= 0, p.off + n <= ex.blen(p.blk)), "characters read lie inside the text")
        return substring(ex, Rec(("str",), {"len": n, "data": src}), p.off, n)
    raise Unsupported("string(ptr,len)")


def call(ex, name, this, args, n, op=False):
    """library function / member / operator"""
    from .ex import Loc, PVar, PElem, PMem, NULL, Opaque, It, Closure, FuncRef
    if op:
        return operator(ex, name, args, n)
    if this is None:
        return free_call(ex, name, args, n)
    loc, t = this
    args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
    k = t[0] if t else None
    key = (k, name)
    h = METHODS.get(key)
    if h:
        return h(ex, loc, t, args, n)
    x = ex.opts.get("ext", {})
    if key in x:
        return x[key](ex, loc, t, args, n)
    if k == "opaque" and (t[1], name) in x:
        return x[(t[1], name)](ex, loc, t, args, n)
    if k == "ptr" and name == "get":
        return ex.read(loc)
    if k == "ptr" and name in ("operator bool",):
        return ex.as_bool(ex.read(loc))
    if k == "ptr" and name == "reset":
        ex.write(loc, NULL if not args else ex.rv(args[0]))
        return None
    if k == "opaque" and ("mutex" in t[1]) and name in ("lock", "unlock"):
        if ex.opts.get("mutex"):  # 1: held by this call
            (ex.lock if name == "lock" else ex.unlock)(loc)
        return None
    raise Unsupported("library member %s::%s" % (t, name))


def m_size(ex, loc, t, args, n):
    return length(ex, loc)


def m_empty(ex, loc, t, args, n):
    return length(ex, loc) == 0


def m_push(ex, loc, t, args, n):
    l = length(ex, loc)
    v = ex.rv(args[0])
    et = t[1] if t[0] == "vec" else ("int", 8, True)
    if t[0] == "vec" and len(args) > 1 or (t[0] == "vec" and t[1][0] == "cls" and not (isinstance(v, Rec) or is_z3(v))):
        raise Unsupported("emplace_back")
    ex.write(loc.i(l, et), ex.unfix(et, v))
    set_len(ex, loc, z3.simplify(l + 1))
    ex.assume(l + 1 <= 1 << 60)
    return None


def m_emplace_back(ex, loc, t, args, n):
    et = t[1]
    if len(args) == 1:
        at = ex.ty(args[0])
        at = at[1] if at[0] == "ref" else at
        if at == et or et[0] in ("int", "fval", "ptr", "str"):
            if et[0] == "str":
                v = string_value(ex, ex.ev(args[0]))
                l = length(ex, loc)
                ex.write(loc.i(l, et), v)
                set_len(ex, loc, z3.simplify(l + 1))
                ex.assume(l + 1 <= 1 << 60)
                return loc.i(l, et)
            return m_push(ex, loc, t, args, n)
    if et[0] == "cls":
        l = length(ex, loc)
        tmp = ex.new_cell(et, Rec(et, {nm: ex._raw(ft, nm) for _, nm, ft, _ in ex.fields(et[1])}), "obj")
        ctors = [c for c in ex.tu.decls.get(et[1] + "::" + et[1].split("::")[-1], []) if len([x for x in c.get("inner", []) if x.get("kind") == "ParmVarDecl"]) == len(args)]
        if len(ctors) != 1:
            raise Unsupported("emplace_back constructor")
        vals = [ex.rv(a) for a in args]
        ex.run_ctor(et[1], tmp, args, {"ctorType": ctors[0]["type"]}, evald=vals)
        ex.write(loc.i(l, et), ex.read(tmp))
        set_len(ex, loc, z3.simplify(l + 1))
        ex.assume(l + 1 <= 1 << 60)
        return loc.i(l, et)
    if et[0] == "pair" and len(args) == 2:
        l = length(ex, loc)
        ex.write(loc.i(l, et), Rec(et, {"first": ex.unfix(et[1], ex.rv(args[0])), "second": ex.unfix(et[2], ex.rv(args[1]))}))
        set_len(ex, loc, z3.simplify(l + 1))
        return loc.i(l, et)
    raise Unsupported("emplace_back of %s" % (et,))


def m_pop_back(ex, loc, t, args, n):
    l = length(ex, loc)
    ex.oblige("bounds", l > 0, "pop_back on a non-empty container")
    set_len(ex, loc, z3.simplify(l - 1))


def elt(t):
    return ("int", 8, True) if t[0] == "str" else t[1]


def m_back(ex, loc, t, args, n):
    l = length(ex, loc)
    ex.oblige("bounds", l > 0, "back() of a non-empty container")
    return loc.i(z3.simplify(l - 1), elt(t))


def m_front(ex, loc, t, args, n):
    l = length(ex, loc)
    ex.oblige("bounds", l > 0, "front() of a non-empty container")
    return loc.i(z3.IntVal(0), elt(t))


def m_index(ex, loc, t, args, n):
    i = ex.rv(args[0])
    l = length(ex, loc)
    if t[0] == "str":
        ex.oblige("bounds", z3.And(i >= 0, i <= l), "string index in bounds")
    else:
        ex.oblige("bounds", z3.And(i >= 0, i < l), "index in bounds")
    return loc.i(z3.simplify(i), elt(t))


def m_begin(ex, loc, t, args, n):
    from .ex import It
    return It(loc, z3.IntVal(0), elt(t))


def m_end(ex, loc, t, args, n):
    from .ex import It
    return It(loc, length(ex, loc), elt(t))


def m_clear(ex, loc, t, args, n):
    set_len(ex, loc, z3.IntVal(0))


def m_reserve(ex, loc, t, args, n):
    for a in args:
        ex.rv(a)


def m_resize(ex, loc, t, args, n):
    nl = ex.rv(args[0])
    v = ex.read(loc, facts=False)
    x = ex.rv(args[1]) if len(args) > 1 else ex.zero(elt(t))
    x = ex.unfix(elt(t), x)
    nd = tmap(lambda a: z3.Const(ex.name("rsz"), a.sort()), v.d["data"])
    copy_prefix(ex, nd, v.d["data"], v.d["len"])
    for a, b in zip(leaves(nd), leaves(x)):
        j = z3.Int("j!q")
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= v.d["len"], j < nl), z3.Select(a, j) == b), patterns=[z3.Select(a, j)]))
    ex.assume(nl <= 1 << 60)
    ex.write(loc, Rec(v.t, {"len": nl, "data": nd}))


def m_insert(ex, loc, t, args, n):
    from .ex import It
    if len(args) == 3:
        pos, b, e = [ex.rv(a) for a in args]
        if isinstance(pos, It) and isinstance(b, It) and isinstance(e, It):
            l = length(ex, loc)
            if not z3.is_true(z3.simplify(pos.idx == l)):
                raise Unsupported("insert not at end")
            src = ex.read(b.loc, facts=False)
            ex.oblige("bounds", z3.And(b.idx >= 0, b.idx <= e.idx, e.idx <= src.d["len"]), "inserted range is valid")
            vec_append(ex, loc, src.d["data"], b.idx, z3.simplify(e.idx - b.idx))
            return None
    raise Unsupported("insert")


def m_data(ex, loc, t, args, n):
    from .ex import PElem
    return PElem(loc, z3.IntVal(0), elt(t))


def m_substr(ex, loc, t, args, n):
    s = ex.read(loc)
    l = s.d["len"]
    pos = ex.rv(args[0]) if args else z3.IntVal(0)
    ex.oblige("bounds", pos <= l, "substr position within the string")
    if len(args) > 1:
        cnt = ex.rv(args[1])
        m = z3.If(cnt < l - pos, cnt, l - pos)
    else:
        m = l - pos
    return substring(ex, s, pos, z3.simplify(m))


def m_append(ex, loc, t, args, n):
    v = string_value(ex, ex.ev(args[0]))
    vec_append(ex, loc, v.d["data"], z3.IntVal(0), v.d["len"])
    return loc


METHODS = {}
for _k in ("vec", "str", "pq"):
    METHODS[(_k, "size")] = m_size
    METHODS[(_k, "empty")] = m_empty
for _k in ("vec", "str"):
    METHODS.update({(_k, "length"): m_size, (_k, "push_back"): m_push, (_k, "pop_back"): m_pop_back, (_k, "back"): m_back,
                    (_k, "front"): m_front, (_k, "at"): m_index, (_k, "begin"): m_begin, (_k, "end"): m_end, (_k, "cbegin"): m_begin,
                    (_k, "cend"): m_end, (_k, "clear"): m_clear, (_k, "reserve"): m_reserve, (_k, "resize"): m_resize,
                    (_k, "insert"): m_insert, (_k, "data"): m_data})
METHODS[("vec", "emplace_back")] = m_emplace_back
METHODS[("str", "c_str")] = m_data
METHODS[("str", "substr")] = m_substr
METHODS[("str", "append")] = m_append


def operator(ex, name, args, n):
    from .ex import Loc, PVar, PElem, PMem, NULL, Opaque, It, Closure
    if name == "operator[]":
        base = ex.ev(args[0])
        t = ex.ty(args[0])
        t = t[1] if t[0] == "ref" else t
        if isinstance(base, (PElem, PMem)) or t[0] == "ptr":
            if isinstance(base, Loc):
                base = ex.read(base)
            p = ex.ptradd(base, ex.rv(args[1]))
            ex.check_ptr(p)
            return ex.deref(p)
        if not isinstance(base, Loc):
            base = ex.new_cell(t, base, "tmp")
        h = ex.opts.get("ext", {}).get((t[0], "operator[]"))
        if t[0] in ("vec", "str", "arr"):
            return m_index(ex, base, t, args[1:], n)
        if h:
            return h(ex, base, t, args[1:], n)
        if t[0] == "map":
            return map_index(ex, base, t, args[1:], n)
        raise Unsupported("operator[] on %s" % (t,))
    if name in ("operator*", "operator->") and len(args) == 1:
        v = ex.rv(args[0])
        t = ex.ty(args[0])
        t = t[1] if t[0] == "ref" else t
        if name == "operator*":
            if isinstance(v, It):
                return deref_iter(ex, v)
            return ex.deref(v, t)
        if isinstance(v, It):
            return PVar(deref_iter(ex, v))
        return v
    if name in ("operator++", "operator--"):
        l = ex.lv(args[0])
        v = ex.read(l)
        d = z3.IntVal(1 if name == "operator++" else -1)
        ex.write(l, ex.ptradd(v, d))
        return v if len(args) == 2 else l
    if name in ("operator+", "operator-"):
        ta = ex.ty(args[0])
        a, b = ex.rv(args[0]), ex.rv(args[1])
        if isinstance(a, It):
            if isinstance(b, It):
                return ex.ptrdiff(a, b)
            return ex.ptradd(a, b if name == "operator+" else z3.simplify(-b))
        if name == "operator+":
            return concat(ex, a, b, ta, ex.ty(args[1]))
    if name in ("operator+=", "operator-="):
        l = ex.lv(args[0])
        v = ex.read(l)
        if isinstance(v, It):
            d = ex.rv(args[1])
            ex.write(l, ex.ptradd(v, d if name == "operator+=" else z3.simplify(-d)))
            return l
        if isinstance(v, Rec) and v.t[0] == "str":
            t1 = ex.ty(args[1])
            if t1[0] == "int":
                m_push(ex, l, ("str",), args[1:], n)
                return l
            s = string_value(ex, ex.ev(args[1]))
            vec_append(ex, l, s.d["data"], z3.IntVal(0), s.d["len"])
            return l
    if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
        a, b = ex.rv(args[0]), ex.rv(args[1])
        ta, tb = ex.ty(args[0]), ex.ty(args[1])
        o = name[8:]
        if isinstance(a, Rec) and a.t[0] == "str" or isinstance(b, Rec) and b.t[0] == "str":
            if o in ("==", "!="):
                e = str_eq(ex, string_value(ex, a), string_value(ex, b))
                return e if o == "==" else z3.Not(e)
            ra, rb = str_rank(string_value(ex, a)), str_rank(string_value(ex, b))
            return {"<": ra < rb, ">": ra > rb, "<=": ra <= rb, ">=": ra >= rb}[o]
        if isinstance(a, Rec) and isinstance(b, Rec) and a.t[0] == "vec":
            e = vec_eq(ex, a, b)
            return e if o == "==" else z3.Not(e)
        return ex.compare(o, a, b, ta, tb)
    if name == "operator=":
        t = ex.ty(args[0])
        t = t[1] if t[0] == "ref" else t
        if t[0] == "str":
            t1 = ex.ty(args[1])
            v = string_value(ex, ex.ev(args[1])) if t1[0] != "int" else Rec(("str",), {"len": z3.IntVal(1), "data": z3.K(INT, ex.rv(args[1]))})
        else:
            v = ex.rv(args[1])
        l = ex.lv(args[0])
        if isinstance(v, Rec) and t[0] == "vec":
            v = Rec(t, v.d)
        ex.write(l, v)
        return l
    if name == "operator bool":
        return ex.as_bool(ex.rv(args[0]))
    x = ex.opts.get("ext", {})
    if name in x:
        return x[name](ex, args, n)
    raise Unsupported("library operator " + name)


def deref_iter(ex, v):
    if v.loc.t and v.loc.t[0] == "map":
        ex.oblige("bounds", v.idx % 2 == 0, "iterator designates an entry")
        key = z3.simplify(v.idx / 2)
        return ex.new_cell(v.t, Rec(v.t, {"first": key, "second": ex.read(v.loc.i(key, v.t[2]))}), "entry")
    ln = length(ex, v.loc)
    ex.oblige("bounds", z3.And(v.idx >= 0, v.idx < ln), "iterator dereference in range")
    return v.loc.i(v.idx, v.t)


def concat(ex, a, b, ta, tb):
    from .ex import Opaque
    def s(v, t):
        if t[0] == "int":
            return Rec(("str",), {"len": z3.IntVal(1), "data": z3.K(INT, v)})
        return string_value(ex, v)
    x, y = s(a, ta), s(b, tb)
    if isinstance(x, Opaque) or isinstance(y, Opaque):
        return Opaque("str")
    loc = ex.new_cell(("str",), x, "cat")
    vec_append(ex, loc, y.d["data"], z3.IntVal(0), y.d["len"])
    return ex.read(loc)


def free_call(ex, name, args, n):
    from .ex import Loc, PVar, PElem, PMem, NULL, Opaque, It, Closure
    base = name.split("::")[-1]
    args = [a for a in args if a.get("kind") != "CXXDefaultArgExpr"]
    x = ex.opts.get("ext", {})
    if base in x:
        return x[base](ex, args, n)
    if base == "__builtin_expect":
        return ex.rv(args[0])
    if base in ("min", "max"):
        a, b = ex.rv(args[0]), ex.rv(args[1])
        # std::min(a,b) = b<a ? b : a ; std::max(a,b) = a<b ? b : a
        return z3.If(b < a, b, a) if base == "min" else z3.If(a < b, b, a)
    if base == "static_pointer_cast":
        return ex.rv(args[0])
    if base == "dynamic_pointer_cast":
        v = ex.rv(args[0])
        return z3.If(z3.Bool(ex.name("is")), v, z3.IntVal(0)) if is_z3(v) else v
    if base in ("move", "forward", "as_const"):
        return ex.ev(args[0])
    if base == "make_shared" or base == "make_unique":
        t = ex.ty(n)
        if t[0] == "ptr" and t[1][0] == "cls":
            return ex.new_object(t[1][1], args, {"ctorType": {}} if False else None) if not args else make_obj(ex, t[1][1], args)
        raise Unsupported(base + " of %s" % (t,))
    if base == "swap":
        l, m = ex.lv(args[0]), ex.lv(args[1])
        a, b = ex.read(l), ex.read(m)
        ex.write(l, b)
        ex.write(m, a)
        return None
    if base == "make_pair":
        t = ex.ty(n)
        return Rec(t, {"first": ex.unfix(t[1], ex.rv(args[0])), "second": ex.unfix(t[2], ex.rv(args[1]))})
    if base in ("__assert_fail", "abort"):
        if ex.mode == "collect":
            return None  # what follows may still write
        ex.oblige("assert", z3.BoolVal(False), "assertion failure unreachable")
        from .ex import PathEnd
        raise PathEnd()
    if base in ("memcpy", "memmove"):
        return m_memcpy(ex, args)
    if base == "sort":
        return sort_range(ex, args, n)
    if base in ("lower_bound", "upper_bound") and len(args) in (3, 4):
        return bound(ex, base, args)
    if base == "is_sorted" and len(args) == 2:
        a, b = ex.rv(args[0]), ex.rv(args[1])
        if isinstance(a, (It, PElem)) and isinstance(b, (It, PElem)) and a.t[0] == "int":
            D = ex.read(a.loc, facts=False).d["data"]
            ex.oblige("bounds", z3.And(a.idx >= 0, b.idx <= length(ex, a.loc)), "range inside the container")
            r, w, i = z3.Bool(ex.name("sorted")), z3.Int(ex.name("unsorted.at")), z3.Int("i!q")
            ex.assume(z3.If(r, z3.ForAll([i], z3.Implies(z3.And(i > a.idx, i < b.idx), z3.Select(D, i - 1) <= z3.Select(D, i)), patterns=[z3.Select(D, i)]),
                            z3.And(w > a.idx, w < b.idx, z3.Select(D, w - 1) > z3.Select(D, w))))
            return r
    if base in ("strlen",):
        v = ex.rv(args[0])
        if isinstance(v, PElem):
            return ex.read(v.loc.f("len", None), facts=False) - v.idx
    raise Unsupported("library function " + name)


def m_memcpy(ex, args):
    from .ex import PMem, Loc
    d, sp, nb = [ex.rv(a) for a in args]
    if not (isinstance(d, PMem) and isinstance(sp, PMem) and d.t == sp.t):
        raise Unsupported("memcpy of %r from %r" % (d, sp))
    sz = ex.sizeof(d.t)
    if sz != 1:
        ex.oblige("bounds", nb % sz == 0, "whole items copied")
    n = nb if sz == 1 else nb / sz
    ex.oblige("bounds", z3.And(n >= 0, d.off >= 0, d.off + n <= ex.blen(d.blk)), "bytes written lie inside the block")
    ex.oblige("bounds", z3.And(sp.off >= 0, sp.off + n <= ex.blen(sp.blk)), "bytes read lie inside the block")
    from .ex import sel
    m = ex.memmap(ex.st, d.t)
    src, old = sel(m, sp.blk), sel(m, d.blk)
    new = z3.Const(ex.name("copied"), old.sort())
    j = z3.Int("j!q")
    ex.assume(z3.ForAll([j], z3.Select(new, j) == z3.If(z3.And(j >= d.off, j < d.off + n), z3.Select(src, sp.off + (j - d.off)), z3.Select(old, j)),
                        patterns=[z3.Select(new, j)]))
    ex.write(Loc(("mem", str(d.t), d.blk, d.t), (), ("arr", d.t)), Rec(("arr", d.t), {"len": z3.IntVal(0), "data": new}))
    return d


def make_obj(ex, cls, args):
    ctors = [c for c in ex.tu.decls.get(cls + "::" + cls.split("::")[-1], [])
             if len([x for x in c.get("inner", []) if x.get("kind") == "ParmVarDecl"]) == len(args)]
    ctors = [c for c in ctors if not c.get("isImplicit")] or ctors
    if len(ctors) != 1:
        raise Unsupported("constructor overloads of " + cls)
    ps = [x for x in ctors[0].get("inner", []) if x.get("kind") == "ParmVarDecl"]
    vals = [ex.lv(a) if ex.ty(p)[0] == "ref" else ex.rv(a) for a, p in zip(args, ps)]
    return ex.new_object(cls, args, {"ctorType": ctors[0]["type"]}, evald=vals)


# ---------------------------------------------------------------- priority_queue
def _mark(nm):
    return z3.Function("mark." + nm, INT, z3.BoolSort())


M_SLOT = _mark("slot")   # always true: names a position the solver may use as a witness
CNT = z3.Function("count.below", z3.ArraySort(INT, INT), INT, INT, INT)   # how many of a[0..l) are < k


def count_axioms():
    a, t, v, l, k = z3.Const("a!ax", z3.ArraySort(INT, INT)), z3.Int("t!ax"), z3.Int("v!ax"), z3.Int("l!ax"), z3.Int("k!ax")
    one = lambda c: z3.If(c, z3.IntVal(1), z3.IntVal(0))
    return [z3.ForAll([a, l, k], z3.And(CNT(a, l, k) >= 0, z3.Implies(l >= 0, CNT(a, l, k) <= l)), patterns=[CNT(a, l, k)]),
            z3.ForAll([a, t, v, l, k], z3.Implies(l >= 0, CNT(z3.Store(a, t, v), l, k) == z3.If(
                z3.And(t >= 0, t < l), CNT(a, l, k) - one(z3.Select(a, t) < k) + one(v < k), CNT(a, l, k))), patterns=[CNT(z3.Store(a, t, v), l, k)])]


def count_step(a, l, k):
    """count over l+1 entries"""
    return CNT(a, l + 1, k) == CNT(a, l, k) + z3.If(z3.Select(a, l) < k, z3.IntVal(1), z3.IntVal(0))


SUM = z3.Function("sum.left", z3.ArraySort(INT, INT), z3.ArraySort(INT, INT), INT, INT)   # sum over s in [0..l) of max(0, a[s] - b[s])


def left(a, b, s):
    x = z3.Select(a, s) - z3.Select(b, s)
    return z3.If(x > 0, x, z3.IntVal(0))


def sum_facts(ex, D0, l0, D1, l1, change):
    """what removing or adding one element does to the sum (a finite sum does not depend on the order of its terms)"""
    f = ex.opts.get("sum")
    if f and all(x in D0.d for x in f):
        s0, s1 = SUM(D0.d[f[0]], D0.d[f[1]], l0), SUM(D1.d[f[0]], D1.d[f[1]], l1)
        ex.assume(z3.And(s0 >= 0, s1 >= 0, s1 == s0 + change(f)))


def pq_less(ex, t):
    """the comparator's body as a formula over two elements"""
    cq = ex.resolve(t[2] or "")
    fs = ex.tu.funcs.get((cq or "?") + "::operator()", [])
    if len(fs) != 1:
        raise Unsupported("comparator " + str(t[2]))
    return less_by(ex, t, t[1], lambda la, lb: ex.run_body(fs[0], [], {"this": ex.new_cell(("cls", cq), Rec(("cls", cq), {}), "cmp")}, cq + "::operator()", evald=[la, lb]))


def less_by(ex, key, et, run, et2=None):
    """the formula over two elements that run(location, location) computes"""
    cache = ex.__dict__.setdefault("_pqless", {})
    if key in cache:
        return cache[key]
    et2 = et2 or et
    A, B = [tmap_path(lambda p, s, w=w: z3.Const("cmp%s.%s!c" % (w, p), s), ex.shape(t)) for w, t in (("A", et), ("B", et2))]
    out = []

    def one():
        la, lb = ex.new_cell(et, A, "a"), ex.new_cell(et2, B, "b")
        ex.typefacts(et, A)
        ex.typefacts(et2, B)
        for nm, v in (("A", A), ("B", B)):
            for p, lf in leaves_path(v):
                ex.st.known.add(lf.get_id())
        n0 = len(ex.st.pc)
        r = run(la, lb)
        out.append(z3.And(ex.st.pc[n0:] + [ex.as_bool(r)]))
    sm, sw, ss, nr = ex.mode, ex.writes, ex.spec, len(ex.results)
    ex.mode, ex.writes, ex.spec = "dry", None, None
    st0 = ex.st
    ex.st = ex.st.clone()
    ex.st.pc = []
    try:
        ex.explore(one)
    finally:
        ex.mode, ex.writes, ex.spec, ex.st = sm, sw, ss, st0
        del ex.results[nr:]
    f = z3.simplify(z3.Or(out)) if len(out) > 1 else z3.simplify(out[0])
    la, lb = [lf for _, lf in leaves_path(A)], [lf for _, lf in leaves_path(B)]

    def less(x, y):
        sub = list(zip(la, leaves(x))) + list(zip(lb, leaves(y)))
        return z3.substitute(f, [(p, q) for p, q in sub])
    cache[key] = less
    return less


def bound(ex, base, args):
    """std::lower_bound, std::upper_bound: where the elements stop being on the left; the range must be split by that"""
    from .ex import Closure, It
    a, b = ex.rv(args[0]), ex.rv(args[1])
    if not (isinstance(a, It) and isinstance(b, It)):
        raise Unsupported("search of this range")
    et, lower = a.t, base == "lower_bound"
    vt = ex.ty(args[2])
    val = ex.rv(args[2])
    if len(args) == 4:
        cmp = ex.rv(args[3])
        if not isinstance(cmp, Closure):
            raise Unsupported("search comparator")
        op = lambda_body(cmp.node)
        call = lambda la, lb: ex.run_body(op, [], dict(cmp.frame), "operator()", evald=[la, lb])
        if lower:
            f = less_by(ex, ("lambda", op["id"]), et, call, vt)
            left = lambda x: f(x, val)
        else:
            f = less_by(ex, ("lambda", op["id"]), vt, call, et)
            left = lambda x: z3.Not(f(val, x))
    elif et[0] == "int":
        left = (lambda x: x < val) if lower else (lambda x: z3.Not(val < x))
    else:
        raise Unsupported("search of %s" % (et,))
    if ex.mode == "collect":
        return It(a.loc, z3.Int(ex.name("bound")), et)
    v = ex.read(a.loc, facts=False)
    D = v.d["data"]
    at = lambda i: tmap(lambda y: z3.Select(y, i), D)
    lo, hi = a.idx, b.idx
    ex.oblige("bounds", z3.And(lo >= 0, lo <= hi, hi <= v.d["len"]), "range inside the container")
    i, j = z3.Ints("i!q j!q")
    pats = list(leaves(D))
    x, y = z3.Int(ex.name("i")), z3.Int(ex.name("j"))
    ex.oblige("order", z3.Implies(z3.And(lo <= x, x < y, y < hi, left(at(y))), left(at(x))), "the range is split by the search")
    r = z3.Int(ex.name("bound"))
    ex.assume(z3.And(r >= lo, r <= hi))
    ex.assume(z3.And([z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), left(at(i)) == (i < r)), patterns=[z3.Select(p, i)]) for p in pats]))
    return It(a.loc, r, et)


def lambda_body(node):
    """the call operator of a lambda; of a generic one its only instantiation"""
    inner = node["inner"][0].get("inner", [])
    ops = [c for c in inner if c.get("kind") == "CXXMethodDecl" and c.get("name") == "operator()"]
    if not ops:
        for c in inner:
            if c.get("kind") == "FunctionTemplateDecl" and c.get("name") == "operator()":
                ops += [m for m in c.get("inner", [])[1:] if m.get("kind") == "CXXMethodDecl" and not any("auto" in p.get("type", {}).get("qualType", "") for p in m.get("inner", []) if p.get("kind") == "ParmVarDecl")]
    if len(ops) != 1:
        raise Unsupported("lambda with %d bodies" % len(ops))
    return ops[0]


def sort_range(ex, args, n):
    from .ex import It, Closure
    a, b = ex.rv(args[0]), ex.rv(args[1])
    if not (isinstance(a, It) and isinstance(b, It)):
        raise Unsupported("sort of this range")
    et = a.t
    if len(args) > 2:
        cmp = ex.rv(args[2])
        if not isinstance(cmp, Closure):
            raise Unsupported("sort comparator")
        op = lambda_body(cmp.node)
        less = less_by(ex, ("lambda", op["id"]), et, lambda la, lb: ex.run_body(op, [], dict(cmp.frame), "operator()", evald=[la, lb]))
    elif et[0] == "int":
        less = lambda x, y: x < y
    elif et[0] == "cls":
        fs = ex.tu.funcs.get(et[1] + "::operator<", [])
        if len(fs) != 1:
            raise Unsupported("order of " + et[1])
        less = less_by(ex, ("<", et), et, lambda la, lb: ex.run_body(fs[0], [], {"this": la}, et[1] + "::operator<", evald=[lb]))
    else:
        raise Unsupported("sort of %s" % (et,))
    v = ex.read(a.loc, facts=False)
    D = v.d["data"]
    if ex.mode == "collect":
        ex.write(a.loc, v)
        return None
    at = lambda X, i: tmap(lambda y: z3.Select(y, i), X)
    lo, hi = a.idx, b.idx
    ex.oblige("bounds", z3.And(lo >= 0, lo <= hi, hi <= v.d["len"]), "range inside the container")
    X, Y, Z = [tmap(lambda s: z3.Const(ex.name("ord"), s), ex.shape(et)) for _ in range(3)]
    ex.oblige("order", z3.And(z3.Not(less(X, X)), z3.Implies(less(X, Y), z3.Not(less(Y, X))), z3.Implies(z3.And(less(X, Y), less(Y, Z)), less(X, Z)),
                              z3.Implies(less(X, Y), z3.Or(less(X, Z), less(Z, Y)))), "the sort's comparator is a strict weak order")
    N = tmap(lambda y: z3.Const(ex.name("sorted"), y.sort()), D)
    P, Q = z3.Function(ex.name("perm"), INT, INT), z3.Function(ex.name("perm'"), INT, INT)
    i, j = z3.Ints("i!q j!q")
    ins = lambda x: z3.And(x >= lo, x < hi)
    for nw, od in zip(leaves(N), leaves(D)):
        ex.assume(z3.ForAll([i], z3.Select(nw, i) == z3.Select(od, z3.If(ins(i), P(i), i)), patterns=[z3.Select(nw, i)]))
        ex.assume(z3.ForAll([i], z3.Implies(ins(i), z3.And(ins(Q(i)), P(Q(i)) == i, z3.Select(nw, Q(i)) == z3.Select(od, i))), patterns=[z3.Select(od, i)]))
    ex.assume(z3.ForAll([i], z3.Implies(ins(i), z3.And(ins(P(i)), Q(P(i)) == i)), patterns=[P(i)]))
    first = list(leaves(N))[0]
    ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= lo, i < j, j < hi), z3.Not(less(at(N, j), at(N, i)))), patterns=[z3.MultiPattern(z3.Select(first, i), z3.Select(first, j))]))
    ex.write(a.loc, Rec(v.t, {"len": v.d["len"], "data": N}))
    return None


def tmap_path(f, v, pre=""):
    if isinstance(v, Rec):
        return Rec(v.t, {k: tmap_path(f, x, pre + "." + k) for k, x in v.d.items()})
    return f(pre, v)


def leaves_path(v, pre=""):
    if isinstance(v, Rec):
        for k, x in v.d.items():
            yield from leaves_path(x, pre + "." + k)
    else:
        yield pre, v


def pq_order(ex, loc, t):
    """the comparator orders the elements present: what std::priority_queue asks of it"""
    if ex.mode == "collect":
        return
    v = ex.read(loc, facts=False)
    less = pq_less(ex, t)
    l, D = v.d["len"], v.d["data"]
    at = lambda i: tmap(lambda a: z3.Select(a, i), D)
    i, j, k = z3.Ints("i!q j!q k!q")
    inr = lambda x: z3.And(x >= 0, x < l)
    ex.oblige("order", z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i != j), z3.Not(less(at(i), at(j))) == less(at(j), at(i)))),
              "the queue's comparator ranks any two of its elements, one way only")
    ex.oblige("order", z3.ForAll([i, j, k], z3.Implies(z3.And(inr(i), inr(j), inr(k), i != j, j != k, i != k, less(at(i), at(j)), less(at(j), at(k))),
                                                       less(at(i), at(k)))), "the queue's comparator is transitive on its elements")


def pq_top_pos(ex, loc, t):
    v = ex.read(loc, facts=False)
    l, D = v.d["len"], v.d["data"]
    lv = list(leaves(D))
    F = z3.Function("top.%s" % (t[2] or "").split("::")[-1], *([INT] + [a.sort() for a in lv] + [INT]))
    pos = F(l, *lv)
    if ex.mode == "collect":
        return v, pos
    key = ("top", pos.get_id())
    ex.keep(pos)
    if key not in ex.st.known:
        ex.st.known.add(key)
        less = pq_less(ex, t)
        at = lambda i: tmap(lambda a: z3.Select(a, i), D)
        j = z3.Int("j!q")
        ex.assume(z3.Implies(l > 0, z3.And(pos >= 0, pos < l, M_SLOT(pos))))
        pats = [z3.Select(a, j) for a in lv if any(z3.eq(a, x) for x in lv)]
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < l, j != pos), z3.Not(less(at(pos), at(j)))), patterns=pats))
    return v, pos


def pq_top(ex, loc, t, args, n):
    l = length(ex, loc)
    ex.oblige("bounds", l > 0, "top() of a non-empty queue")
    _, pos = pq_top_pos(ex, loc, t)
    return loc.i(pos, t[1])


def pq_pop(ex, loc, t, args, n):
    l = length(ex, loc)
    ex.oblige("bounds", l > 0, "pop() of a non-empty queue")
    pq_order(ex, loc, t)
    v, pos = pq_top_pos(ex, loc, t)
    last = z3.simplify(l - 1)
    D = tmap(lambda a: z3.Store(a, pos, z3.Select(a, last)), v.d["data"])
    ex.assume(z3.And(M_SLOT(pos), M_SLOT(last)))
    for a in leaves(v.d["data"]):
        if a.sort() == z3.ArraySort(INT, INT) and ex.opts.get("count"):
            k = ex.opts["count"](ex)
            ex.assume(count_step(a, last, k))
            ex.assume(count_step(z3.Store(a, pos, z3.Select(a, last)), last, k))
    sum_facts(ex, v.d["data"], l, D, last, lambda f: -left(v.d["data"].d[f[0]], v.d["data"].d[f[1]], pos))
    ex.write(loc, Rec(v.t, {"len": last, "data": D}))


def pq_append(ex, loc, t, x):
    v = ex.read(loc, facts=False)
    l = v.d["len"]
    x = ex.unfix(t[1], x)
    D = tmap2(lambda a, y: z3.Store(a, l, ex._z(y)), v.d["data"], x)
    ex.assume(z3.And(M_SLOT(l), l + 1 <= 1 << 60))
    nl = z3.simplify(l + 1)
    if ex.opts.get("count"):
        for a in leaves(D):
            if a.sort() == z3.ArraySort(INT, INT):
                ex.assume(count_step(a, l, ex.opts["count"](ex)))
    sum_facts(ex, v.d["data"], l, D, nl, lambda f: left(D.d[f[0]], D.d[f[1]], l))
    ex.write(loc, Rec(v.t, {"len": nl, "data": D}))
    pq_order(ex, loc, t)


def pq_push(ex, loc, t, args, n):
    v = ex.rv(args[0])
    if isinstance(v, Loc_()):
        v = ex.read(v)
    pq_append(ex, loc, t, v)


def Loc_():
    from .ex import Loc
    return Loc


def build_temp(ex, et, args):
    """an object of class et made in place from constructor arguments"""
    tmp = ex.new_cell(et, Rec(et, {nm: ex._raw(ft, nm) for _, nm, ft, _ in ex.fields(et[1])}), "obj")
    ctors = [c for c in ex.tu.decls.get(et[1] + "::" + et[1].split("::")[-1], []) if len([x for x in c.get("inner", []) if x.get("kind") == "ParmVarDecl"]) == len(args)]
    ctors = [c for c in ctors if not c.get("isImplicit")] or ctors
    if len(ctors) != 1:
        raise Unsupported("constructor overloads of " + et[1])
    vals = [ex.rv(a) for a in args]
    ex.run_ctor(et[1], tmp, args, {"ctorType": ctors[0]["type"]}, evald=vals)
    return tmp


def pq_emplace(ex, loc, t, args, n):
    if t[1][0] == "cls":
        tmp = build_temp(ex, t[1], args)
        return pq_append(ex, loc, t, ex.read(tmp))
    if len(args) == 1:
        return pq_push(ex, loc, t, args, n)
    raise Unsupported("emplace into " + str(t))


def map_key(ex, loc, t, args):
    if t[1][0] != "int":
        raise Unsupported("map keyed by %s" % (t[1],))
    return ex.rv(args[0])


def map_set(ex, loc, v, key, present):
    had = z3.Select(v.d["has"], key)
    ex.write(loc.f("size", None), v.d["size"] + (z3.If(had, 0, 1) if present else z3.If(had, -1, 0)))
    ex.write(loc.f("has", None), z3.Store(v.d["has"], key, z3.BoolVal(present)))


def map_index(ex, loc, t, args, n):
    key = map_key(ex, loc, t, args)
    v = ex.read(loc, facts=False)
    had = z3.Select(v.d["has"], key)
    map_set(ex, loc, v, key, True)
    if t[2][0] in ("int", "ptr", "fval", "bool"):
        zero = z3.BoolVal(False) if t[2][0] == "bool" else z3.IntVal(0)
        ex.write(loc.f("data", None), z3.Store(v.d["data"], key, z3.If(had, z3.Select(v.d["data"], key), zero)))
    else:
        raise Unsupported("map of %s" % (t[2],))
    return loc.i(key, t[2])


def map_find(ex, loc, t, args, n):
    from .ex import It
    key = map_key(ex, loc, t, args)
    has = z3.Select(ex.read(loc, facts=False).d["has"], key)
    return It(loc, z3.If(has, 2 * key, z3.IntVal(1)), ("pair", t[1], t[2]))  # odd: the end


def map_end(ex, loc, t, args, n):
    from .ex import It
    return It(loc, z3.IntVal(1), ("pair", t[1], t[2]))


def map_count(ex, loc, t, args, n):
    return z3.If(z3.Select(ex.read(loc, facts=False).d["has"], map_key(ex, loc, t, args)), z3.IntVal(1), z3.IntVal(0))


def map_erase(ex, loc, t, args, n):
    from .ex import It
    if ex.ty(args[0])[0] == "iter":
        raise Unsupported("erase by iterator")
    key = map_key(ex, loc, t, args)
    v = ex.read(loc, facts=False)
    map_set(ex, loc, v, key, False)
    return z3.If(z3.Select(v.d["has"], key), z3.IntVal(1), z3.IntVal(0))


def map_clear(ex, loc, t, args, n):
    v = ex.read(loc, facts=False)
    if not isinstance(v, Rec):
        raise Unsupported("clear of %s" % (t,))
    ex.write(loc.f("has", None), z3.K(INT, z3.BoolVal(False)))
    ex.write(loc.f("size", None), z3.IntVal(0))


for _k, _f in (("find", map_find), ("end", map_end), ("cend", map_end), ("count", map_count), ("erase", map_erase), ("clear", map_clear), ("at", None)):
    if _f:
        METHODS[("map", _k)] = _f
METHODS[("map", "size")] = lambda ex, loc, t, args, n: ex.read(loc, facts=False).d["size"]
METHODS[("map", "empty")] = lambda ex, loc, t, args, n: ex.read(loc, facts=False).d["size"] == 0
METHODS[("pq", "top")] = pq_top
METHODS[("pq", "pop")] = pq_pop
METHODS[("pq", "push")] = pq_push
METHODS[("pq", "emplace")] = pq_emplace
