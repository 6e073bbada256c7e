"""From a symbolic path to one concrete run: pick a model in which derived
addresses are the real ones, run it natively, compare."""
import sys
sys.set_int_max_str_digits(0)
import hashlib, random, subprocess
import z3
import sym
from sym import (EngineError, PathEnd, CURVE, bump_fn, is_c, bv, lit, unpack)

P = 2 ** 255 - 19
D = (-121665 * pow(121666, P - 2, P)) % P


def on_curve(v):
    y = (v & ((1 << 255) - 1)) % P
    u = (y * y - 1) % P
    w = (D * y * y + 1) % P
    x2 = u * pow(w, P - 2, P) % P
    return x2 == 0 or pow(x2, (P - 1) // 2, P) == 1


def derive(seeds, bump, prog):
    h = hashlib.sha256(seeds + bytes([bump]) + prog.to_bytes(32, "little") + b"ProgramDerivedAddress").digest()
    return int.from_bytes(h, "little")


def find_pda(seeds, prog):
    for b in range(255, -1, -1):
        k = derive(seeds, b, prog)
        if not on_curve(k):
            return k, b
    return None


class Unrealizable(Exception):
    pass


def ev(m, e):
    if is_c(e):
        return e
    if z3.is_bool(e):
        return int(z3.is_true(m.eval(e, model_completion=True)))
    return m.eval(e, model_completion=True).as_long()


def ev_cells(m, cells):
    cache = {}
    out = []
    for c in cells:
        if type(c) is int:
            out.append(c)
            continue
        e, b = c
        v = cache.get(e.get_id())
        if v is None:
            v = cache[e.get_id()] = ev(m, e)
        out.append((v >> (8 * b)) & 255)
    return bytes(out)


def concretize(eng, w, st, conds=(), seed=1):
    """a model of the path (and conds) with real addresses"""
    rng = random.Random(seed)
    t = st.fork()
    t.model = None
    for c in conds:
        c = lit(c)
        if is_c(c):
            if not c:
                raise Unrealizable("false")
            continue
        t.pc.append(c)
    try:
        if not eng.check(t):
            raise Unrealizable("infeasible")
    except sym.GaveUp as x:
        raise Unrealizable(str(x))
    t.model = eng.last_model

    def pin(c):
        if sym.FPIN:
            c = z3.simplify(z3.substitute(lit(c), *pairs)) if z3.is_expr(lit(c)) else c
        return eng.add(t, c)

    if sym.FPIN:
        t.folded = True
        pairs = [(x, bv(ev(t.model, x), x.size())) for x in sym.FPIN]
        t.pc = [x == y for x, y in pairs] + [z3.simplify(z3.substitute(c, *pairs)) for c in t.pc]

    # addresses that nothing determines become ordinary ones
    def free_keys(apart):
        for n, v in sorted(w.vars.items()):
            if v.size() != 256 or not n.endswith(".key") or n in pinned:
                continue
            for want in (True, False):
                k = rng.getrandbits(256)
                while on_curve(k) != want:
                    k = rng.getrandbits(256)
                if pin(z3.And([v == bv(k, 256), CURVE(bv(k, 256)) == z3.BoolVal(want)] +
                              [bv(e[3], 256) != v for e in apart])):
                    pinned.add(n)
                    break
    pinned = set()
    free_keys(t.pdas)
    # derived addresses: those whose seeds are determined first
    todo = list(t.pdas)
    while todo:
        pick, clear = None, False
        m = t.model
        vals = [ev(m, e[3]).to_bytes(32, "little") for e in todo]
        for j, e in enumerate(todo):
            n, prog, val, key = e
            sv, pv = ev(m, val), ev(m, prog)
            seeds = sv & ((1 << (8 * (n - 1))) - 1)
            lowv = z3.Extract(8 * (n - 1) - 1, 0, bv(val, 8 * n)) if n > 1 else None
            fixed = [bv(prog, 256) == bv(pv, 256)]
            if lowv is not None:
                fixed.append(lowv == bv(seeds, 8 * (n - 1)))
            if not eng.check(t, z3.Not(z3.And(fixed))):
                pick = (e, fixed, seeds, pv)
                break
            # else one that does not build on another address still to be found
            sb = seeds.to_bytes(max(n - 1, 0), "little") + pv.to_bytes(32, "little")
            c = not any(x in sb for i, x in enumerate(vals) if i != j)
            if pick is None or (c and not clear):
                pick, clear = (e, fixed, seeds, pv), c
        (e, fixed, seeds, pv) = pick
        todo.remove(e)
        n, prog, val, key = e
        sb = seeds.to_bytes(max(n - 1, 0), "little")
        if not pin(z3.And(fixed)):
            raise Unrealizable("seeds")
        top = z3.Extract(8 * n - 1, 8 * (n - 1), bv(val, 8 * n))
        r = find_pda(sb, pv)
        f = bump_fn(n - 1)(bv(pv, 256), bv(seeds, max(8, 8 * (n - 1))))
        pin(f == bv(r[1], 8))
        if pin(z3.And(top == bv(r[1], 8), key == bv(r[0], 256))):
            continue
        b = ev(t.model, top)
        k = derive(sb, b, pv)
        if on_curve(k) or not pin(z3.And(top == bv(b, 8), key == bv(k, 256))):
            raise Unrealizable("derived address")
    free_keys(())
    for k in t.curve:
        v = ev(t.model, k)
        if not pin(z3.And(bv(k, 256) == bv(v, 256), CURVE(bv(k, 256)) == z3.BoolVal(on_curve(v)))):
            # another value with the right nature
            want = z3.is_true(t.model.eval(CURVE(bv(k, 256)), model_completion=True))
            for _ in range(8):
                c = rng.getrandbits(256)
                if on_curve(c) == want and pin(bv(k, 256) == bv(c, 256)):
                    break
            else:
                raise Unrealizable("curve")
    return t.model


def run_native(exe, spec, timeout=60):
    p = subprocess.run([exe], input=spec.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout)
    out = p.stdout.decode()
    lines = [l.split() for l in out.splitlines() if l.startswith(("result ", "account ", "out "))]
    if p.returncode != 0 or not lines:
        return ("panic", None), [], p.stderr.decode(errors="replace")[-2000:]
    res = (lines[0][1], int(lines[0][2]))
    acc = []
    for l in lines[1:]:
        if l[0] == "out":
            acc.append(("out", l[1]))
        if l[0] == "account":
            acc.append((l[1], l[2], int(l[3]), l[4]))
    return res, acc, p.stderr.decode(errors="replace")[-2000:]


def hx(b):
    return b.hex() if b else "-"


def spec_of(m, step, syms):
    """text for the replay driver"""
    if "kern" in step:
        return "kern %d %s\n" % (step["kern"], hx(ev_cells(m, step["data"])))
    names = list(step["accounts"])
    L = ["mode %d" % step["mode"], "program " + ev(m, step["pid"]).to_bytes(32, "little").hex(),
         "data " + hx(ev_cells(m, step["data"]))]
    for kind, tag, v in syms:
        n = v.size() // 8
        L.append("sym " + ev(m, v).to_bytes(n, "little").hex())
    for n in names:
        a = step["accounts"][n]
        L.append("account %d %d %d %s %s %d %s" % (
            ev(m, a["signer"]), ev(m, a["writable"]), ev(m, a["exec"]),
            ev(m, a["key"]).to_bytes(32, "little").hex(), ev(m, a["owner"]).to_bytes(32, "little").hex(),
            ev(m, a["lamports"]), hx(ev_cells(m, a["cells"]))))
    for n in step["metas"]:
        L.append("meta %d" % names.index(n))
    return "\n".join(L) + "\n"


def replay(exe, m, st):
    """run every step of the path natively; -> (spec texts, native results,
    None or the first difference from the symbolic run)"""
    specs, outs = [], []
    diff = None
    steps = st.tags["steps"]
    for k, step in enumerate(steps):
        post = st.tags["posts"][k]
        end = steps[k + 1]["syms"] if k + 1 < len(steps) else len(st.syms)
        sp = spec_of(m, step, st.syms[step["syms"]:end])
        res, acc, err = run_native(exe, sp)
        specs.append(sp)
        if "kern" in step:
            got = [l for l in acc if l[0] == "out"]
            acc = []
            outs.append({"result": list(res), "accounts": [], "out": got[0][1] if got else None, "log": err})
            exp = hx(ev_cells(m, post["out"])) if post["out"] is not None else None
            want = post["result"]
            wr = ("ret", 0) if want[0] == "ok" else ("ret", ev(m, want[1])) if want[0] == "err" else ("panic", None)
            if res != wr:
                diff = diff or "step %d: native %r, symbolic %r" % (k, res, wr)
            elif exp is not None and exp != got[0][1]:
                diff = diff or "step %d output: native %r, symbolic %r" % (k, got[0][1], exp)
            continue
        outs.append({"result": list(res), "accounts": [list(a) for a in acc], "log": err})
        want = post["result"]
        if want[0] == "ok":
            wr = ("ret", 0)
        elif want[0] == "err":
            wr = ("ret", ev(m, want[1]))
        elif want[0] == "abort":
            wr = ("abort", ev(m, want[1]))
        else:
            wr = ("panic", None)
        if res != wr:
            diff = diff or "step %d: native %r, symbolic %r" % (k, res, wr)
            continue
        if res == ("ret", 0):
            for n, a in zip(step["accounts"], acc):
                v = post["views"][n]
                got = (a[0], a[1], a[2], a[3])
                exp = (ev(m, v.key).to_bytes(32, "little").hex(), ev(m, v.owner).to_bytes(32, "little").hex(),
                       ev(m, v.lamports), hx(ev_cells(m, v.cells)))
                if got != exp:
                    diff = diff or "step %d account %s: native %r, symbolic %r" % (k, n, got, exp)
    return specs, outs, diff
