"""Runs one property's check: proofs, side conditions, native driver; writes
evidence; exits 0 (held) or 1 (VIOLATION line printed)."""
import importlib, json, multiprocessing as mp, os, shutil, signal, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)


class Unit:
    """one function to verify: translation unit, its contract, contracts visible to it"""

    def __init__(self, tu, contracts, con, label=None, deadline=150, target=None):
        self.tu, self.contracts, self.con, self.deadline, self.target = tu, contracts, con, deadline, target
        self.label = label or ((target or con.q) + con.opts.get("label", ""))


class Lemma:
    """facts about the specification functions themselves: goals() -> [(name, hypotheses, goal)]"""

    def __init__(self, label, goals, deadline=100):
        self.tu, self.label, self.goals, self.deadline = None, label, goals, deadline
        self.contracts, self.con, self.target = {}, None, None


def _work(unit, tus, conn):
    from . import smt
    from .ex import verify
    t0 = time.time()
    if hasattr(unit, "goals"):
        out = {"label": unit.label, "results": [], "error": None, "paths": 0, "inlined": [], "calls": {}, "trusted": [], "stats": smt.STATS}
        try:
            for nm, hyp, goal in unit.goals():
                v, be, _ = smt.prove(hyp, goal)
                out["results"].append({"kind": "lemma", "obligation": nm, "where": unit.label, "verdict": v, "backend": be, "detail": None})
        except BaseException as e:
            out["error"] = "internal: %s: %s" % (type(e).__name__, str(e)[:300])
        out["wall"] = round(time.time() - t0, 2)
        conn.send(out)
        conn.close()
        return
    try:
        ex, err = verify(tus[unit.tu], unit.contracts() if callable(unit.contracts) else unit.contracts, unit.con, deadline=unit.deadline, target=unit.target)
        res = [r.js() for r in ex.results]
        out = {"label": unit.label, "results": res, "error": err, "paths": ex.paths, "inlined": sorted(ex.inlined), "calls": dict(ex.calls),
               "trusted": sorted(ex.trusted), "stats": dict(smt.STATS)}
    except BaseException as e:  # a defect of the tool: the bounded part decides
        out = {"label": unit.label, "results": [], "error": "internal: %s: %s" % (type(e).__name__, str(e)[:300]), "paths": 0, "inlined": [],
               "calls": {}, "trusted": [], "stats": dict(smt.STATS), "tb": traceback.format_exc()[-1500:]}
    out["wall"] = round(time.time() - t0, 2)
    conn.send(out)
    conn.close()


def prove_units(units, tus, jobs, total):
    """every unit in its own process"""
    t0 = time.time()
    todo = list(enumerate(units))
    live = {}
    out = [None] * len(units)
    ctx = mp.get_context("fork")
    while todo or live:
        while todo and len(live) < jobs:
            i, u = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(u, tus, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time(), u)
        time.sleep(0.02)
        for i in list(live):
            p, a, s, u = live[i]
            if a.poll():
                try:
                    out[i] = a.recv()
                except EOFError:
                    out[i] = {"label": u.label, "results": [], "error": "worker ended", "paths": 0, "inlined": [], "calls": {}, "trusted": [], "stats": {}, "wall": 0}
                p.join()
                del live[i]
            elif time.time() - s > u.deadline * 2 + 60 or time.time() - t0 > total:
                p.kill()
                p.join()
                out[i] = {"label": u.label, "results": [], "error": "time budget exhausted", "paths": 0, "inlined": [], "calls": {}, "trusted": [], "stats": {},
                          "wall": round(time.time() - s, 1)}
                del live[i]
            elif not p.is_alive() and not a.poll():
                p.join()
                out[i] = {"label": u.label, "results": [], "error": "worker died", "paths": 0, "inlined": [], "calls": {}, "trusted": [], "stats": {}, "wall": 0}
                del live[i]
    return out


def run_driver(spec, tier, seed, hints):
    """-> dict(status ok|fail|nobuild|limit, fails [..], counts, samples)"""
    from . import native
    t0 = time.time()
    binp, err = native.build(spec["src"], spec.get("tus"), spec.get("flags", ()))
    if err:
        return {"status": "nobuild", "detail": err[-1500:], "fails": [], "counts": {}, "samples": [], "wall": time.time() - t0}
    tb = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="cov.")
    env = dict(os.environ, COV_SCRATCH=scratch, TMPDIR=scratch)
    limit = spec.get("limit", 240) * (3 if tier == "thorough" else 1)
    cmd = [binp, tier, str(seed)] + [str(h) for h in hints[:40]]
    try:
        try:
            p = subprocess.run(cmd, cwd=scratch, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit)
            rc, so, se = p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            rc, so, se = None, (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    fails, counts, samples, last = [], {}, [], ""
    for ln in so.splitlines():
        if ln.startswith("FAIL "):
            fails.append(ln[5:])
        elif ln.startswith("COUNT "):
            _, k, v = ln.split()
            counts[k] = counts.get(k, 0) + int(v)
        elif ln.startswith("SAMPLE "):
            samples.append(ln[7:])
        elif ln.startswith("AT "):
            last = ln[3:]
    if rc is None:
        # a call that does not come back: the progress line names the input
        fails.append("HANG no answer within %d s at input: %s" % (limit, last or "?"))
    elif rc != 0 and not fails:
        what = "signal %d" % -rc if rc < 0 else "exit %d" % rc
        fails.append("CRASH %s at input: %s; stderr: %s" % (what, last or "?", " | ".join(se.strip().splitlines()[-3:])[:400]))
    return {"status": "fail" if fails else "ok", "fails": fails, "counts": counts, "samples": samples[:12], "wall": round(time.time() - t0, 2),
            "build_s": round(tb, 2), "cmd": " ".join([os.path.basename(spec["src"])] + cmd[1:])}


def run_drivers(specs, tier, seed, hints):
    """all drivers of a property, results joined"""
    rs = [run_driver(sp, tier, seed, hints) for sp in specs]
    if len(rs) == 1:
        return rs[0]
    out = {"status": next((r["status"] for r in rs if r["status"] != "ok"), "ok"), "fails": [f for r in rs for f in r["fails"]], "counts": {}, "samples": [x for r in rs for x in r["samples"][:6]],
           "wall": round(sum(r["wall"] for r in rs), 2), "cmd": "; ".join(r.get("cmd") or "?" for r in rs), "detail": next((r["detail"] for r in rs if r.get("detail")), None)}
    for r in rs:
        for k, v in r["counts"].items():
            out["counts"][k] = out["counts"].get(k, 0) + v
    return out


def known_findings(pid):
    f = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == pid]


def main(argv):
    pid = argv[0]
    tier = "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.environ.setdefault("COV_T_FAST", "4000" if tier == "quick" else "12000")
    os.environ.setdefault("COV_T_FULL", "15000" if tier == "quick" else "60000")
    t0 = time.time()
    from .cast import TU
    mod = importlib.import_module("specs." + pid)
    P = mod.PROP
    units = P["units"]() if "units" in P else []
    spec = P.get("driver")
    specs = spec if isinstance(spec, list) else [spec] if spec else []
    spec = specs[0] if specs else None
    # the library compiles while the proofs run
    pre = {}

    def prebuild():
        from . import native
        try:
            for sp in specs:
                pre["r"] = native.build(sp["src"], sp.get("tus"), sp.get("flags", ()), jobs=4)
        except Exception as e:
            pre["r"] = (None, str(e))
    th = None
    if spec:
        th = threading.Thread(target=prebuild)
        th.start()
    tus, tuerr = {}, {}
    from concurrent.futures import ThreadPoolExecutor
    names = sorted(set(u.tu for u in units if u.tu))

    def load(n):
        try:
            return n, TU(n), None
        except Exception as e:
            return n, None, "%s: %s" % (type(e).__name__, str(e)[:500])
    with ThreadPoolExecutor(4) as p:
        for n, tu, e in p.map(load, names):
            if e:
                tuerr[n] = e
            else:
                tus[n] = tu
    if th:
        th.join()
    ok_units = [u for u in units if u.tu is None or u.tu in tus]
    res = prove_units(ok_units, tus, 8, 520 if tier == "quick" else 700)
    for u in units:
        if u.tu is not None and u.tu not in tus:
            res.append({"label": u.label, "results": [], "error": "front end: " + tuerr[u.tu], "paths": 0, "inlined": [], "calls": {}, "trusted": [], "stats": {}, "wall": 0})
    # lemmas and side conditions
    side = []
    if "side" in P:
        try:
            side = P["side"](tus)
        except Exception as e:
            side = [{"kind": "side", "obligation": "side conditions", "where": pid, "verdict": "limit", "backend": "tool", "detail": str(e)[:300]}]
    bad, limits, hints = [], [], set()
    nobl = ndis = 0
    backends, kinds = {}, {}
    for r in res:
        if r["error"]:
            limits.append({"function": r["label"], "reason": r["error"], "tb": r.get("tb")})
        for o in r["results"]:
            nobl += 1
            kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
            if o["verdict"] in ("proved", "skipped"):
                ndis += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            elif not r["error"] or o["verdict"] == "refuted":
                bad.append(dict(o, function=r["label"]))
                for v in ((o.get("detail") or {}).get("model") or {}).values():
                    try:
                        hints.add(int(v))
                    except ValueError:
                        pass
    for o in side:
        nobl += 1
        kinds[o["kind"]] = kinds.get(o["kind"], 0) + 1
        if o["verdict"] == "proved":
            ndis += 1
            backends[o["backend"]] = backends.get(o["backend"], 0) + 1
        elif o["verdict"] == "limit":
            limits.append({"function": o["obligation"], "reason": str(o.get("detail"))})
        else:
            bad.append(dict(o, function=o["where"]))
    lim = 1 << 63
    hints = sorted(h for h in hints if -lim <= h < lim and not -3 <= h <= 3)
    drv = run_drivers(specs, tier, seed, hints) if specs else None
    known = known_findings(pid)
    fails, kf = [], []
    for f in (drv["fails"] if drv else []):
        k = [x for x in known if f.startswith(x["match"])]
        if k:
            kf.append((k[0], f))
        else:
            fails.append(f)
    kb = []
    for o in list(bad):
        k = [x for x in known if x.get("obligation") and x["obligation"] == [o["function"], o["obligation"]]]
        if k:
            kb.append((k[0], o))
            bad.remove(o)
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    violations = 0
    line = None
    if bad or fails:
        violations = 1
        rep = os.path.join(edir, pid + ".replay.json")
        with open(rep, "w") as f:
            json.dump({"property": pid, "failed_obligations": bad[:40], "failing_inputs": fails[:40],
                       "replay_with": drv.get("cmd") if drv else None,
                       "how": "python3-vt -m cov.replay %s  (recompiles drivers/%s against /repo and runs it)" % (pid, ", ".join(x["src"] for x in specs)) if spec else None}, f, indent=1)
        line = "VIOLATION property=%s replay=%s" % (pid, rep) + ("" if fails else " no-failing-input-found")
    proved = [r["label"] for r in res if not r["error"] and all(o["verdict"] in ("proved", "skipped") for o in r["results"])]
    trusted = sorted(set(P.get("assumptions", [])) | set("contract assumed, not verified here: " + t for r in res for t in r["trusted"]))
    level = "proof" if units and not limits else ("proof" if proved and not fails else "other")
    calls = {}
    for r in res:
        for k, v in r["calls"].items():
            calls[k] = calls.get(k, 0) + v
    nlem = sum(hasattr(u, "goals") for u in units)
    cov = {"obligations": nobl, "discharged": ndis,
           "checker_cmd": "./check %s --tier %s" % (pid, tier),
           "trusted_base": ["clang 18 front end (AST of /repo's current sources)", "cov/ex.py VC generator", "z3 %s" % __import__("z3").get_version_string(), "cvc5 1.1.2 (fallback)",
                            "cov/stl.py contracts of the C++ library"],
           "functions_under_contract": len(units) - nlem, "lemma_groups": nlem, "functions_proved": sorted(proved),
           "functions_bounded_only": limits, "inlined_helpers": sorted(set(x for r in res for x in r["inlined"])),
           "contracts_used_at_calls": calls,
           "obligations_by_kind": kinds, "obligations_by_backend": backends,
           "solver_s": {k: round(sum(r["stats"].get(k, 0) for r in res), 2) for k in ("z3_s", "cvc5_s")},
           "queries": sum(r["stats"].get("queries", 0) for r in res), "paths": sum(r["paths"] for r in res),
           "per_function_s": {r["label"]: r["wall"] for r in res},
           "side_conditions": [o["obligation"] for o in side]}
    if drv:
        n = sum(v for k, v in drv["counts"].items() if k.startswith("eval"))
        cov["evaluations"] = n
        cov["distinct_nontrivial"] = drv["counts"].get("nontrivial", 0)
        cov["rule"] = "; ".join(x.get("rule", "") for x in specs)
        cov["samples"] = drv["samples"]
        cov["bounded_part"] = {"what": "; ".join(x.get("bounded", "") for x in specs), "counts": drv["counts"], "wall_s": drv["wall"], "status": drv["status"], "detail": drv.get("detail")}
    cov["explanation"] = P.get("explanation", "")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": trusted, "wall_s": round(time.time() - t0, 2), "violations": violations}
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, f in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for k, o in kb:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s %s: %d/%d obligations discharged over %d functions (%d bounded only), driver %s, %.1f s" % (
        pid, tier, ndis, nobl, len(units), len(limits), (drv["status"] + " " + str(drv["counts"])) if drv else "none", time.time() - t0))
    for l in limits[:8]:
        print("  bounded only: %s: %s" % (l["function"], l["reason"][:200]))
    for o in bad[:8]:
        print("  failed obligation: [%s] %s: %s (%s)" % (o["kind"], o["where"], o["obligation"], o["verdict"]))
    for f in fails[:5]:
        print("  failing input: " + f[:400])
    if drv and drv["status"] == "nobuild":
        print("  driver did not build: " + drv["detail"][-300:])
    if line:
        print(line)
        return 1
    return 0


if __name__ == "__main__":
    sys.setrecursionlimit(10000)
    rc = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(rc)
