"""Solver back ends: z3 first, cvc5 on what z3 leaves undecided."""
import os, subprocess, sys, tempfile, time
import z3

STATS = {"z3_s": 0.0, "cvc5_s": 0.0, "queries": 0, "z3": 0, "cvc5": 0, "simplify": 0}
T_FAST = int(os.environ.get("COV_T_FAST", "4000"))
T_FULL = int(os.environ.get("COV_T_FULL", "20000"))


def has_quant(e, _c={}):
    key = e.get_id()
    if key in _c:
        return _c[key][0]
    stack = [e]
    seen = set()
    r = False
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            r = True
            break
        stack.extend(x.children())
    _c[key] = (r, e)
    return r


RATE = 4500  # z3 resource units per budgeted millisecond: budgets do not depend on machine speed


def budget(s, ms):
    s.set("rlimit", int(ms * RATE))
    s.set("timeout", int(ms * 12 + 20000))


def feasible(pc, timeout=250):
    s = z3.Solver()
    budget(s, timeout)
    for p in pc:
        if not has_quant(p):
            s.add(p)
    return s.check() != z3.unsat


def consistent(pc, tmo=1500):
    """vacuity guard: look for a contradiction (E-matching, saturated or cut off)"""
    s = z3.Solver()
    budget(s, tmo)
    s.set("smt.mbqi", False)
    s.set("auto_config", False)
    for p in pc:
        s.add(p)
    return s.check()


def prove(pc, goal, thorough=True, want_model=True, tmo=None):
    """-> (verdict, backend, model|reason); verdict in proved/refuted/unknown."""
    g = z3.simplify(goal)
    if z3.is_true(g):
        STATS["simplify"] += 1
        return "proved", "simplify", None
    STATS["queries"] += 1
    t0 = time.time()
    quant = has_quant(goal) or any(has_quant(p) for p in pc)
    cand = None
    reason = "?"
    try:
        if quant:
            # extensionality makes up terms that set off triggers: first without it;
            # with and without preprocessing: they instantiate differently
            for mk, ext in ((z3.SimpleSolver, False), (z3.SimpleSolver, True), (z3.Solver, True)):
                s = mk()
                budget(s, tmo or T_FAST)
                s.set("smt.array.extensional", ext)
                s.set("smt.mbqi", False)
                s.set("auto_config", False)
                for p in pc:
                    s.add(p)
                s.add(z3.Not(goal))
                r = s.check()
                if r == z3.unsat:
                    STATS["z3"] += 1
                    return "proved", "z3", None
            reason = s.reason_unknown() if r == z3.unknown else "sat"
            try:
                cand = s.model()
            except z3.Z3Exception:
                cand = None
            if not thorough:
                return "unknown", "z3", cand
        s = z3.Solver()
        budget(s, tmo or T_FULL)
        for p in pc:
            s.add(p)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            STATS["z3"] += 1
            return "proved", "z3", None
        if r == z3.sat:
            return "refuted", "z3", s.model()
        reason = s.reason_unknown()
    finally:
        STATS["z3_s"] += time.time() - t0
    if thorough:
        t0 = time.time()
        try:
            v = cvc5_check(s.to_smt2(), (tmo or T_FULL) / 1000.0)
        finally:
            STATS["cvc5_s"] += time.time() - t0
        if v == "unsat":
            STATS["cvc5"] += 1
            return "proved", "cvc5", None
        if v == "sat":
            return "refuted", "cvc5", cand
    return "unknown", "z3/cvc5: " + reason, cand


def cvc5_check(smt2, tmo):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write("(set-logic ALL)\n" + smt2)
        name = f.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(tmo * 1000), name],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo + 10)
        out = r.stdout.decode().strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(name)


def mp(*args):
    """multi-pattern over terms of any sorts (z3.MultiPattern coerces them to one)"""
    ctx = args[0].ctx
    arr = (z3.Ast * len(args))(*[a.as_ast() for a in args])
    return z3.PatternRef(z3.Z3_mk_pattern(ctx.ref(), len(args), arr), ctx)


def patternable(t):
    """may the term be a trigger (no propositional structure or conditionals inside)"""
    stack = [t]
    while stack:
        x = stack.pop()
        if not z3.is_app(x):
            if z3.is_var(x):
                continue
            return False
        if x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES):
            return False
        stack.extend(x.children())
    return True


def forall(vs, body, pats=()):
    """ForAll with those of the suggested triggers that can be one"""
    ps = [p for p in pats if not isinstance(p, tuple) and (isinstance(p, z3.PatternRef) or patternable(p))]
    ps += [mp(*p) for p in pats if isinstance(p, tuple) and all(map(patternable, p))]
    f = sys._getframe(1)
    qid = "%s.%d" % (f.f_code.co_name, f.f_lineno)
    if f.f_code.co_name == "fall":
        qid = "%s.%d" % (f.f_back.f_code.co_name, f.f_back.f_lineno)
    return z3.ForAll(vs, body, patterns=ps, qid=qid) if ps else z3.ForAll(vs, body, qid=qid)
