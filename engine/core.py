"""Scenarios, claims, evidence."""
import json, os, sys, time, traceback, hashlib
import multiprocessing as mp
import z3
import build, ir, lia
from sym import Engine, EngineError, GaveUp, PathEnd, is_c, bv, lit, as_bool
from world import World, eq, same_bytes
from concrete import concretize, replay, Unrealizable, ev

VERIF = build.VERIF
MODULE = None
EXE = None


class Violation(Exception):
    def __init__(s, label, path, what):
        super().__init__(what)
        s.label, s.path, s.what = label, path, what


class Vacuous(Exception):
    pass


class Ctx:
    def __init__(s, prop, scen, tier, seed, known=(), kind="quick", end=None):
        s.prop, s.scen, s.tier, s.seed, s.known = prop, scen, tier, seed, known
        s.thorough = tier == "thorough"
        s.e = Engine(MODULE, seed=seed)
        budget = (900 if s.thorough else 150) if kind == "soft" else (2400 if s.thorough else 600)
        s.e.deadline = min(time.time() + budget, end or 1e18)
        if s.thorough:
            s.e.max_steps *= 4
        s.paths = 0
        s.results = {}
        s.claims = 0
        s.by_solver = 0
        s.by_rewriting = 0
        s.reach = {}
        s.validated = 0
        s.unreal = 0
        s.undecided = None
        s.samples = []
        s.found = []
        s.vlimit = 10 ** 9 if s.thorough else 24
        s.vseen = {}
        s.bounds = []
        s.fixed = None

    def world(s):
        st = s.e.state()
        return World(s.e), st

    def note(s, text):
        if text not in s.bounds:
            s.bounds.append(text)

    # ---- running
    def run(s, w, st, metas, data, mode=0, pid=None, validate=True):
        """all final states of one instruction"""
        s.w = w
        kw = {} if pid is None else {"pid": pid}
        for t in w.step(st, metas, data, mode, **kw):
            s.paths += 1
            r = t.result
            k = r[0] if r[0] == "ok" else "%s %s" % (r[0], r[1] if is_c(r[1]) or isinstance(r[1], str) else "*")
            s.results[k] = s.results.get(k, 0) + 1
            if validate:
                s.validate(w, t, k)
            yield t

    def kern(s, w, st, kind, data, validate=True):
        """all outcomes of one public function (harness/common/kern.rs)"""
        s.w = w
        for t in w.kern(st, kind, data):
            s.paths += 1
            r = t.result
            k = "%d %s" % (kind, r[0] if r[0] == "ok" else "%s %s" % (r[0], r[1] if is_c(r[1]) or isinstance(r[1], str) else "*"))
            s.results[k] = s.results.get(k, 0) + 1
            if validate:
                s.validate(w, t, k)
            yield t

    def validate(s, w, t, k):
        """the native program does the same on a model of this path"""
        n = s.vseen.get(k, 0)
        cap = s.vlimit if k.endswith("ok") else max(2, s.vlimit // 8)
        if n >= cap:
            return
        s.vseen[k] = n + 1
        try:
            m = concretize(s.e, w, t, seed=s.seed)
        except Unrealizable:
            s.unreal += 1
            return
        specs, outs, diff = replay(EXE, m, t)
        if diff:
            raise EngineError("executor and native program disagree (%s): %s\n%s" % (s.scen, diff, "\n---\n".join(specs)))
        s.validated += 1
        if len(s.samples) < 2 and k.endswith("ok"):
            s.samples.append({"scenario": s.scen, "run": specs[-1].splitlines()[:40], "result": outs[-1]["result"]})

    # ---- claims
    def refute(s, t, conds):
        """None if pc and conds is unsatisfiable, else a reason it is not"""
        cs, raw = [], []
        for c in conds:
            r = as_bool(c)
            c = lit(r)
            if is_c(c):
                if not c:
                    s.by_rewriting += 1
                    return None
                continue
            k = s.e.known(t, c)
            if k == 0:
                s.by_rewriting += 1
                return None
            if k == 1:
                continue
            cs.append(c)
            raw.append(r)
        if cs:
            if s.e.lia.refutes(t.pc, raw) or s.e.lia.refutes(t.pc, cs):
                s.by_solver += 1
                return None
        if s.e.check(t, *cs):
            return cs
        s.by_solver += 1
        return None

    def claim(s, t, label, cond, when=None, what=None):
        """on this path: when => cond"""
        s.claims += 1
        if z3.is_expr(cond) and z3.is_and(cond):
            # one conjunct at a time: easier for the solver
            for x in cond.children():
                s.claim(t, label, x, when, what)
            return
        cs = [z3.Not(as_bool(cond)) if not isinstance(cond, bool) else z3.BoolVal(not cond)]
        if when is not None:
            cs.append(as_bool(when) if not isinstance(when, bool) else z3.BoolVal(when))
            if not s.reach.get(label):
                w = lit(cs[1])
                s.reach[label] = bool(w) if is_c(w) else bool(s.e.feasible(t, w))
        else:
            s.reach[label] = True
        s.decide(t, label, cs, what)

    def never(s, t, label, when=True, what=None):
        """this path cannot happen when ..."""
        s.claims += 1
        s.decide(t, label, [as_bool(when) if not isinstance(when, bool) else z3.BoolVal(when)], what)

    def decide(s, t, label, conds, what):
        try:
            bad = s.refute(t, conds)
        except GaveUp as x:
            if s.undecided is None:
                s.undecided = "%s: %s" % (label, x)
            return
        if bad is not None:
            s.violated(t, label, bad, what)

    def expect(s, label, cond):
        """vacuity: something must have been reached"""
        s.reach[label] = s.reach.get(label, False) or bool(cond)

    def violated(s, t, label, bad, what):
        kn = [k for k in s.known if k.get("label") == label and k.get("scenario") in (None, s.scen)]
        if kn:
            if not any(f[0] == label for f in s.found):
                s.found.append((label, kn[0].get("what", "")))
            return
        m = None
        err = None
        for k in range(4):
            try:
                m = concretize(s.e, s.w, t, bad, seed=s.seed + k)
                break
            except Unrealizable as x:
                err = x
        if m is None:
            raise EngineError("counterexample of '%s' could not be realised: %s" % (label, err))
        specs, outs, diff = replay(EXE, m, t)
        if diff:
            raise EngineError("counterexample of '%s' does not replay: %s" % (label, diff))
        d = os.path.join(VERIF, "replays", s.prop)
        os.makedirs(d, exist_ok=True)
        body = {"property": s.prop, "scenario": s.scen, "claim": label,
                "what": what or label, "result": [str(x) for x in t.result],
                "accounts": {n: hex(ev(m, a.key)) for n, a in s.w.acct.items()},
                "steps": specs, "native": outs}
        txt = json.dumps(body, indent=1)
        p = os.path.join(d, hashlib.sha256(txt.encode()).hexdigest()[:16] + ".json")
        open(p, "w").write(txt)
        raise Violation(label, p, "%s [%s]" % (what or label, s.scen))

    def stats(s):
        return dict(scenario=s.scen, paths=s.paths, results=s.results, claims=s.claims,
                    by_solver=s.by_solver, by_rewriting=s.by_rewriting, queries=s.e.queries + s.e.lia.queries,
                    lia=s.e.lia.queries, lia_hits=s.e.lia.hits,
                    solver=s.e.solver_time, steps=s.e.steps, forks=s.e.forks, validated=s.validated,
                    unrealized=s.unreal, funcs=sorted(s.e.funcs_seen), samples=s.samples,
                    found=s.found, vacuous=sorted(k for k, v in s.reach.items() if not v), bounds=s.bounds)


REG = {}       # property -> [(name, fn, tier)]


def scenario(prop, name=None, tier="quick", **params):
    """register a scenario of a property

    tier: quick or thorough. "soft" runs in both within a budget of its own; where that
    runs out the scenario is reported as undecided and does not fail the check: these are
    long inputs, whose cost depends on how a loop over them is written. "long" is the same
    for long histories, with the full budget."""
    def d(fn):
        for p in (prop if isinstance(prop, (list, tuple)) else [prop]):
            REG.setdefault(p, []).append((name or fn.__name__, fn, tier, params))
        return fn
    return d


def _one(job):
    prop, idx, tier, seed, known, end = job
    name, fn, kind, params = REG[prop][idx]
    t0 = time.time()
    c = Ctx(prop, name, tier, seed, known, kind, end)
    out = {"scenario": name}
    try:
        fn(c, **params)
        out = c.stats()
        if c.paths == 0:
            out["error"] = "no path explored"
        elif c.undecided:
            out["error"] = "Error: undecided: " + c.undecided
        elif out["vacuous"]:
            out["error"] = "never reached: " + ", ".join(out["vacuous"])
    except Violation as v:
        out = c.stats()
        out["violation"] = (v.label, v.path, v.what)
    except Exception:
        out = c.stats()
        out["error"] = traceback.format_exc()[-3000:]
    if kind in ("soft", "long") and "error" in out:
        if os.environ.get("VERIF_ALL"):
            print(out["error"], flush=True)
        x = out.pop("error").strip().splitlines()
        out["undecided"] = next((y for y in x if "Error: " in y), x[-1])
    out["wall"] = time.time() - t0
    return out


def known_findings(prop):
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def main(prop, tier, only=None):
    global MODULE, EXE
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    log = lambda x: print("  " + x, flush=True)
    lean, cdir = build.build(log)
    EXE = build.build_replay(log)
    MODULE = ir.Module(lean)
    Engine(MODULE)     # parses the globals once, before forking
    known = known_findings(prop)
    end = None if tier == "thorough" else t0 + 840
    jobs = [(prop, i, tier, seed, known, end) for i, (n, f, tr, p) in enumerate(REG[prop])
            if (tier == "thorough" or tr in ("quick", "long", "soft")) and (not only or only in n)]
    jobs.sort(key=lambda j: {"long": 0, "soft": 2}.get(REG[prop][j[1]][2], 1))
    if not jobs:
        print("no scenario")
        return 2
    res = []
    n = min(int(os.environ.get("VERIF_JOBS", "8")), len(jobs))
    ctx = mp.get_context("fork")
    with ctx.Pool(n, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_one, jobs):
            res.append(r)
            log("%-44s %5d paths %6d claims %6d queries %6.1fs solver %6.1fs  native %d%s" % (
                r["scenario"], r.get("paths", 0), r.get("claims", 0), r.get("queries", 0),
                r.get("solver", 0), r["wall"], r.get("validated", 0),
                "  VIOLATION" if "violation" in r else "  ERROR" if "error" in r else
                "  UNDECIDED: " + r["undecided"] if "undecided" in r else ""))
            if "violation" in r and not os.environ.get("VERIF_ALL"):
                pool.terminate()
                break
    viol = [r["violation"] for r in res if "violation" in r]
    errs = [(r["scenario"], r["error"]) for r in res if "error" in r]
    evidence(prop, tier, seed, res, time.time() - t0, viol, len(jobs))
    seen = set()
    for r in res:
        for label, what in r.get("found", []):
            if label not in seen:
                seen.add(label)
                print("KNOWN-FINDING: property=%s %s" % (prop, what or label))
    if viol:
        for label, path, what in viol[:1]:
            print("violated: " + what)
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errs:
        for n, x in errs:
            print("ERROR in %s:\n%s" % (n, x))
        return 2
    if all("undecided" in r for r in res):
        print("nothing decided")
        return 2
    for r in res:
        if "undecided" in r:
            print("UNDECIDED within its budget: %s (%s)" % (r["scenario"], r["undecided"]))
    print("%s holds: %d scenarios, %d paths, %d claims, %.1fs" % (
        prop, sum("undecided" not in r for r in res), sum(r["paths"] for r in res), sum(r["claims"] for r in res), time.time() - t0))
    return 0


def demangle(n):
    import re
    m = re.match(r"_ZN(.*)17h[0-9a-f]{16}E", n)
    if not m:
        return n
    s, out = m.group(1), []
    while s:
        k = re.match(r"\d+", s)
        if not k:
            break
        l = int(k.group(0))
        out.append(s[len(k.group(0)):len(k.group(0)) + l])
        s = s[len(k.group(0)) + l:]
    return "::".join(out).replace("$LT$", "<").replace("$GT$", ">").replace("$u20$", " ").replace("..", "::")


def evidence(prop, tier, seed, res, wall, viol, njobs):
    S = lambda k: sum(r.get(k, 0) for r in res)
    funcs = sorted({demangle(f) for r in res for f in r.get("funcs", [])})
    cov = {
        "states": S("paths"),
        "transitions": S("forks"),
        "traces_validated_against_impl": S("validated"),
        "samples": [x for r in res for x in r.get("samples", [])][:4],
        "claims_decided": S("claims"),
        "claims_refuted_by_solver_unsat": S("by_solver"),
        "claims_closed_by_term_rewriting": S("by_rewriting"),
        "solver_queries": S("queries"),
        "solver_queries_linear_integer": S("lia"),
        "solver_seconds": round(S("solver"), 2),
        "ir_instructions_executed": S("steps"),
        "functions_encoded": [f for f in funcs if "dlp" in f],
        "functions_encoded_other_crates": len([f for f in funcs if "dlp" not in f]),
        "bounds": sorted({b for r in res for b in r.get("bounds", [])}),
        "scenarios": [{k: r.get(k) for k in ("scenario", "paths", "results", "claims", "queries", "validated",
                                             "unrealized")} | {"wall_s": round(r["wall"], 1)} for r in res],
        "scenarios_planned": njobs,
        "scenarios_undecided": {r["scenario"]: r["undecided"] for r in res if "undecided" in r},
        "explanation": "states: complete symbolic paths (each one stands for all inputs satisfying its path "
                       "condition); transitions: solver-decided forks between them; traces_validated: paths of "
                       "which one model was run on the natively compiled program with identical outcome and "
                       "account contents",
    }
    ev_ = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
           "assumptions": ASSUMPTIONS, "wall_s": round(wall, 1), "violations": len(viol)}
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + ".json")
    open(p + ".tmp", "w").write(json.dumps(ev_, indent=1))
    os.rename(p + ".tmp", p)


ASSUMPTIONS = [
    "x86-64 LLVM IR of the release profile (no overflow checks, panic = abort) stands for the deployed SBF build",
    "the Solana runtime and system program behave as modelled in harness/common/rt.rs",
    "program-derived addresses are collision-free and off the curve",
    "initial balances are at most 2^56 lamports per account; seeds, lists and data have the lengths listed in bounds",
    "rent parameters are the default ones",
]
