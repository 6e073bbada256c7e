"""Whole histories on one ledger: delegate, commit, finalize, undelegate, again."""
from fx import *
from p_commit import each, nm
from p_delegate import derived
from p_undelegate import fee, EXT
from sym import CURVE


class Ledger:
    """one account's life; every step requires exactly what its caller must bring along, and has to succeed"""

    unregistered = ()
    empty = ()

    def more(s, f):
        """further accounts"""

    def __init__(s, c, nd=3, seeds=(3,), conf=None, prefund=(), escrow=False, buffers=()):
        s.c, s.seeds, s.escrow = c, seeds, escrow
        f = s.f = Fx(c)
        s.w = w = f.w
        st = f.st
        z = lambda n: None if n in prefund else 0
        f.add("payer", owner=SYSTEM, data=[])
        f.add("validator", owner=SYSTEM, data=[])
        f.add("validator2", owner=SYSTEM, data=[])
        if escrow:
            f.add("owner", data=[])
        f.add("delegated", owner=SYSTEM if escrow else DLP, data=w.sym_bytes("delegated.data", nd))
        f.system()
        if escrow:
            f.add("dlp", key=DLP, owner=LOADER, lamports=1, executable=1)
            s.program = "system"
        else:
            f.add("program", data=[], executable=1)
            s.program = "program"
        f.add("dbuffer", data=w.sym_bytes("dbuffer.data", nd))
        for n in ("record", "meta", "cstate", "crec", "ubuffer"):
            f.add(n, owner=SYSTEM, lamports=z(n), data=[])
        for n in ("vvault", "vvault2"):
            if n in s.unregistered:
                f.add(n, owner=SYSTEM, lamports=z(n), data=[])
            else:
                f.add(n, owner=DLP, data=w.sym_bytes(n + ".data", 8))
        f.add("fvault", owner=DLP, data=w.sym_bytes("fvault.data", 8))
        if conf is None:
            f.add("pconf", owner=SYSTEM, lamports=0 if "pconf" in s.empty else None, data=[])
        else:
            f.add("pconf", owner=DLP, data=config_cells(w, "pconf", conf))
        for k, n in enumerate(buffers):
            f.add("buffer%d" % k, data=w.sym_bytes("buffer%d.data" % k, n))
        s.more(f)
        w.distinct(st)
        K = s.K = lambda n: w.acct[n].key
        d, p = K("delegated"), K(s.program)
        if escrow:
            s.index = w.var("arg.index", 8)
            f.assume(eq(d, f.pda(st, b"balance", K("owner"), pack(s.index, 1)), 256))
            s.lens = (7, 32, 1)
            s.seedcells = list(u(3, 4)) + list(u(7, 4)) + list(b"balance") + list(u(32, 4)) + list(kb(K("owner"))) + \
                list(u(1, 4)) + pack(s.index, 1)
        else:
            s.lens = seeds
            s.argseeds = [w.sym_bytes("arg.seed%d" % k, l) for k, l in enumerate(seeds)]
            s.seedcells = seeds_cells(w, "arg.seed", seeds)
            f.assume(Or(CURVE(bv(d, 256)), eq(d, f.pda(st, *s.argseeds, prog=p), 256)), Not(eq(p, DLP, 256)))
        for n, key in (("record", f.pda(st, b"delegation", d)), ("meta", f.pda(st, b"delegation-metadata", d)),
                       ("cstate", f.pda(st, b"state-diff", d)), ("crec", f.pda(st, b"commit-state-record", d)),
                       ("ubuffer", f.pda(st, b"undelegate-buffer", d)), ("dbuffer", f.pda(st, b"buffer", d, prog=p)),
                       ("vvault", f.pda(st, b"v-fees-vault", K("validator"))),
                       ("vvault2", f.pda(st, b"v-fees-vault", K("validator2"))),
                       ("fvault", f.pda(st, b"fees-vault")), ("pconf", f.pda(st, b"p-conf", p))):
            f.assume(eq(K(n), key, 256))
        if conf is not None:
            f.assume(eq(w.vars["pconf.disc"], D_CONFIG, 64))
            for v in ("validator", "validator2"):
                f.assume(lor([eq(w.vars["pconf.entry%d" % k], K(v), 256) for k in range(conf)]))
        c.note("history: account of %d B, seeds %s, approved list %s, prefunded %s%s" % (
            nd, list(s.lens), "absent" if conf is None else "of %d" % conf, list(prefund) or "none",
            ", an escrow" if escrow else ""))
        s.n = 0
        s.start = w.snap(st)

    # -- one step
    def require(s, t, *cs):
        """what the caller of the next step brings along"""
        for x in cs:
            x = lit(as_bool(x) if not isinstance(x, bool) else T(x))
            if is_c(x):
                if not x:
                    return False
                continue
            if not s.c.e.add(t, x):
                return False
        return True

    def do(s, t, label, metas, data, mode=0):
        for r in s.c.run(s.w, t, metas, data, mode):
            if r.result[0] != "ok":
                s.c.never(r, label, T(True), what="%s fails although everything it needs is there (%s)" % (label, r.result))
                continue
            yield r

    def var(s, name, bits):
        s.n += 1
        return s.w.var("%s.%d" % (name, s.n), bits)

    # -- the operations
    def delegate(s, t, again=None):
        f, w, c = s.f, s.w, s.c
        if again is not None:
            # the owner program hands the account over again, with new content
            w.set(t, "delegated", owner=DLP, data=[0] * again)
            w.set(t, "dbuffer", data=w.sym_bytes("dbuffer.data.again", again))
        b = w.snap(t)
        mlen = 8 + 8 + 1 + 4 + sum(4 + l for l in s.lens) + 32
        if not s.require(t, UGE(B(b["payer"].lamports), B(rent(96) + rent(mlen)))):
            return
        freq, auth = s.var("arg.freq", 32), s.var("arg.validator", 256)
        if s.escrow:
            metas = [("payer", 1, 1), ("owner", 1, 0), ("delegated", 0, 1), ("dbuffer", 0, 1), ("record", 0, 1), ("meta", 0, 1),
                     ("system", 0, 0), ("dlp", 0, 0)]
            data = tag(10) + pack(freq, 4) + list(u(0, 4)) + [1] + pack(auth, 32) + pack(s.index, 1)
        else:
            metas = [("payer", 1, 1), ("delegated", 1, 1), ("program", 0, 0), ("dbuffer", 0, 1), ("record", 0, 1), ("meta", 0, 1),
                     ("system", 0, 0)]
            data = tag(0) + pack(freq, 4) + s.seedcells + [1] + pack(auth, 32)
        for r in s.do(t, "delegation", metas, data):
            q = w.snap(r)
            rec, m = Rec(q["record"]), Meta(q["meta"], s.lens)
            c.claim(r, "delegation records the account", T(rec.ok and m.ok))
            if not (rec.ok and m.ok):
                continue
            c.claim(r, "delegation records the account", land([
                owned(q["delegated"]), eq(rec.owner, s.K(s.program), 256), eq(rec.lamports, b["delegated"].lamports, 64),
                eq(m.last, 0, 64), eq(m.und, 0, 8), same_bytes(m.seeds_cells, s.seedcells),
                eq(q["delegated"].lamports, b["delegated"].lamports, 64),
                same_bytes(q["delegated"].cells, b["dbuffer"].cells if b["dbuffer"].len else b["delegated"].cells)]))
            yield r

    def commit(s, t, nc, allow, buf=None, by="validator", vault="vvault", stale=False, keep=False):
        """(state, slot, lamports, content); stale: an older slot than the last, which must change nothing"""
        f, w, c = s.f, s.w, s.c
        b = w.snap(t)
        rec, m = Rec(b["record"]), Meta(b["meta"], s.lens)
        slot, lam = s.var("arg.slot", 64), rec.lamports if keep else s.var("arg.lamports", 64)
        need = B(0) if keep else If(UGT(lam, B(rec.lamports)), lam - B(rec.lamports), B(0))
        if not s.require(t, ULE(B(lam), B(1 << 56)), ULT(slot, B(m.last)) if stale else UGE(slot, B(m.last)),
                         UGE(B(b[by].lamports), need + B(rent(nc) + rent(88)))):
            return
        content = s.w.sym_bytes("commit%d" % s.n, nc) if buf is None else b["buffer%d" % buf].cells
        metas = [(by, 1, 1), ("delegated", 0, 0), ("cstate", 0, 1), ("crec", 0, 1), ("record", 0, 0), ("meta", 0, 1)]
        data = pack(slot, 8) + pack(lam, 8) + [1 if allow else 0]
        if buf is not None:
            metas.append(("buffer%d" % buf, 0, 0))
            data = tag(13) + data
        else:
            data = tag(1) + data + list(u(nc, 4)) + content
        metas += [(vault, 0, 0), ("pconf", 0, 0), ("system", 0, 0)]
        for r in s.do(t, "an outdated commit" if stale else "a commit", metas, data):
            q = w.snap(r)
            if stale:
                c.claim(r, "an outdated commit changes nothing", s.same(b, q))
            else:
                k = CRec(q["crec"])
                c.claim(r, "the commit is pending", T(k.ok))
                if not k.ok:
                    continue
                c.claim(r, "the commit is pending", land([
                    eq(k.identity, s.K(by), 256), eq(k.account, s.K("delegated"), 256), eq(k.slot, slot, 64),
                    eq(k.lamports, lam, 64), same_bytes(q["cstate"].cells, content),
                    s.same(b, q, "delegated", "record", "payer", "fvault", vault)]))
                s.settle(r, "cstate", need + B(rent(nc)))
                s.settle(r, "crec", B(rent(88)))
                s.settle(r, by, B(b[by].lamports) - need - B(rent(nc) + rent(88)))
            yield r, slot, lam, content

    def finalize(s, t, by="validator", vault="vvault"):
        c, b = s.c, s.w.snap(t)
        metas = [(by, 1, 1), ("delegated", 0, 1), ("cstate", 0, 1), ("crec", 0, 1), ("record", 0, 1), ("meta", 0, 1),
                 (vault, 0, 1), ("system", 0, 0)]
        for r in s.do(t, "finalization", metas, tag(2)):
            rec, k = Rec(b["record"]), CRec(b["crec"])
            if k.ok:
                com, old = B(k.lamports), B(rec.lamports)
                up = If(UGT(com, old), com - old, B(0))
                s.settle(r, "delegated", B(b["delegated"].lamports) + com - old)
                s.settle(r, vault, B(b[vault].lamports) + If(UGT(old, com), old - com, B(0)))
                s.settle(r, by, B(b[by].lamports) + B(b["crec"].lamports) + B(b["cstate"].lamports) - up)
                q = s.w.snap(r)
                rec = Rec(q["record"])
                if rec.ok and c.refute(r, [Not(eq(rec.lamports, q["delegated"].lamports, 64))]) is None:
                    s.w.set(r, "record", data=q["record"].cells[:80] + pack(q["delegated"].lamports, 8) + q["record"].cells[88:])
            yield r

    def undelegate(s, t, by="validator", vault="vvault"):
        b = s.w.snap(t)
        nd = b["delegated"].len
        if nd and not s.require(t, UGE(B(b[by].lamports), B(rent(nd))), UGE(B(b["delegated"].lamports), B(rent(nd)))):
            return
        metas = [(by, 1, 1), ("delegated", 0, 1), (s.program, 0, 0), ("ubuffer", 0, 1), ("cstate", 0, 0), ("crec", 0, 0),
                 ("record", 0, 1), ("meta", 0, 1), ("payer", 0, 1), ("fvault", 0, 1), (vault, 0, 1), ("system", 0, 0)]
        for r in s.do(t, "undelegation", metas, tag(3)):
            fr, fm = fee(b["record"].lamports), fee(b["meta"].lamports)
            s.settle(r, "delegated", B(b["delegated"].lamports))
            s.settle(r, by, B(b[by].lamports))
            s.settle(r, "fvault", B(b["fvault"].lamports) + fr[0] + fm[0])
            s.settle(r, vault, B(b[vault].lamports) + fr[1] + fm[1])
            s.settle(r, "payer", B(b["payer"].lamports) + fr[2] + fm[2])
            yield r

    # -- talking about the ledger
    def same(s, a, b, *names):
        return land([s.f.same(a[n], b[n]) for n in (names or a)])

    def total(s, v):
        return z3.Sum([B(v[n].lamports) for n in v])

    def settle(s, t, name, expr):
        """if the balance provably is expr, go on with expr (keeps long histories small)"""
        v = s.w.view(t, name).lamports
        if not is_c(v) and s.c.refute(t, [Not(eq(v, expr, 64))]) is None:
            s.w.set(t, name, lamports=z3.simplify(expr) if z3.is_expr(expr) else expr)

    def donate(s, t):
        """anybody may send lamports to the delegated account at any time"""
        x = s.var("donation", 64)
        L = B(s.w.view(t, "delegated").lamports)
        if not s.require(t, ULE(x, B(1 << 50))):
            return None
        s.w.set(t, "delegated", lamports=L + x)
        return x

    def returned(s, t, content, balance, gifts=B(0), hint=""):
        """the account is back with its owner, with exactly this content and balance"""
        c, q, a = s.c, s.w.snap(t), s.start
        d = q["delegated"]
        c.claim(t, "the owner program gets the last committed data back" + hint, And(
            eq(d.owner, s.K(s.program), 256), same_bytes(d.cells, content)))
        c.claim(t, "the owner program gets the committed balance back" + hint, B(d.lamports) == B(balance))
        c.claim(t, "nothing of the delegation remains" + hint, land([
            s.f.closed(q[n]) for n in ("record", "meta", "cstate", "crec")] + [uninit(q["ubuffer"])]))
        c.claim(t, "no lamport is created or lost" + hint, s.total(q) == s.total(a) + gifts)
        L = lambda n: B(a[n].lamports)
        M = lambda n: B(q[n].lamports)
        return L, M, q


def cap(t_list, n):
    return t_list


# ---- one cycle
def once(c, nc=2, buf=False, gift=False, other=False, **k):
    s = Ledger(c, buffers=(nc,) if buf else (), **k)
    f, done = s.f, False
    L0 = B(s.start["delegated"].lamports)
    if s.escrow:
        nc = 0
    for t in s.delegate(f.st):
        r0 = s.w.snap(t)
        x = s.donate(t) if gift else B(0)
        if x is None:
            continue
        for t, slot, lam, content in s.commit(t, nc, True, 0 if buf else None):
            for t in s.finalize(t):
                q = s.w.snap(t)
                m = Meta(q["meta"], s.lens)
                c.claim(t, "the commit is final", And(
                    same_bytes(q["delegated"].cells, content), eq(m.last, slot, 64), eq(m.und, 1, 8),
                    eq(Rec(q["record"]).lamports, q["delegated"].lamports, 64)))
                by, vault = ("validator2", "vvault2") if other else ("validator", "vvault")
                for t in s.undelegate(t, by, vault):
                    done = True
                    L, M, q = s.returned(t, content, lam + x, x)
                    fr, fm = fee(r0["record"].lamports), fee(r0["meta"].lamports)
                    ub = L("ubuffer") if q["delegated"].len else B(0)
                    com = If(UGT(lam, L0), lam - L0, B(0))
                    back = If(UGT(L0, lam), L0 - lam, B(0))
                    pre = lambda n: L(n)
                    c.claim(t, "the rent payer gets its share", M("payer") == B(r0["payer"].lamports) + fr[2] + fm[2])
                    c.claim(t, "the protocol vault gets its share", M("fvault") == L("fvault") + fr[0] + fm[0])
                    c.claim(t, "the validators' vaults get their shares", And(
                        M(vault) + M("vvault") == L(vault) + L("vvault") + fr[1] + fm[1] + back + (B(0) if other else fr[1] + fm[1] + back),
                        M("vvault2") == L("vvault2") + (fr[1] + fm[1] if other else B(0))))
                    pf = B(0)
                    for n in ("cstate", "crec"):
                        pf = pf + L(n)
                    c.claim(t, "the validators pay exactly what the balance grew", And(
                        M("validator") == L("validator") - com + pf + (B(0) if other else ub),
                        M("validator2") == L("validator2") + (ub if other else B(0))))
    c.expect("a complete cycle", done)


each("C24", [dict(), dict(nd=0, nc=0, seeds=()), dict(buf=True, conf=2, nc=4, nd=2), dict(gift=True, nc=3), dict(other=True, nd=1, nc=0),
             dict(escrow=True, nd=0), dict(prefund=("ubuffer",), nc=1)])(once)
each("C24", [dict(prefund=("cstate", "crec")), dict(prefund=("record", "meta")), dict(nd=40, nc=33, seeds=(32, 1)), dict(nd=0, nc=50, conf=3),
             dict(escrow=True, nd=0, gift=True), dict(escrow=True, nd=0, other=True, conf=2)], "thorough")(once)


# ---- several commits, the last one permits
def repeated(c, sizes=(2, 4), bufs=(), stale=False, **k):
    s = Ledger(c, buffers=[n for j, n in enumerate(sizes) if j in bufs], **k)
    f = s.f
    hit = []

    def rec(t, j, last, lam0):
        if j == len(sizes):
            for t in s.undelegate(t):
                hit.append(1)
                s.returned(t, last[2], last[1])
            return
        b = list(bufs).index(j) if j in bufs else None
        for t, slot, lam, content in s.commit(t, sizes[j], j == len(sizes) - 1, b):
            if last is not None:
                c.claim(t, "slots never go back", UGE(slot, last[0]))
            for t in s.finalize(t):
                q = s.w.snap(t)
                m = Meta(q["meta"], s.lens)
                c.claim(t, "the last commit is the state", And(
                    same_bytes(q["delegated"].cells, content), eq(m.last, slot, 64),
                    eq(m.und, 1 if j == len(sizes) - 1 else 0, 8), eq(q["delegated"].lamports, lam, 64),
                    eq(Rec(q["record"]).lamports, lam, 64)))
                if stale and j == 0:
                    for t, _, _, _ in s.commit(t, 1, False, stale=True):
                        rec(t, j + 1, (slot, lam, content), lam)
                else:
                    rec(t, j + 1, (slot, lam, content), lam)

    for t in s.delegate(f.st):
        rec(t, 0, None, None)
    c.expect("a complete history", hit)


each("C24", [dict(sizes=(2, 4)), dict(sizes=(3, 0), nd=0, stale=True)], "long")(repeated)
each("C24", [dict(sizes=(1, 2, 3)), dict(sizes=(4, 1), bufs=(0, 1), conf=2), dict(sizes=(0, 0), escrow=True, nd=0)], "thorough")(repeated)


# ---- out of turn
def out_of_turn(c, nc=2, nc2=3, **k):
    """while a commit is pending, further commits and undelegation are refused, and finalizing by another validator too; none of it
    keeps the pending commit from being finalized"""
    s = Ledger(c, **k)
    f = s.f
    hit, tried = [], set()

    def refused(t, b, label):
        if t.result[0] == "ok":
            c.claim(t, label, s.same(b, s.w.snap(t)), what=label)

    for t in s.delegate(f.st):
        # nothing committed yet: no permission
        b = s.w.snap(t)
        metas = [("validator", 1, 1), ("delegated", 0, 1), (s.program, 0, 0), ("ubuffer", 0, 1), ("cstate", 0, 0), ("crec", 0, 0),
                 ("record", 0, 1), ("meta", 0, 1), ("payer", 0, 1), ("fvault", 0, 1), ("vvault", 0, 1), ("system", 0, 0)]
        for r in c.run(s.w, t.fork(), metas, tag(3)):
            refused(r, b, "undelegation without permission is refused")
        # a second delegation
        if not s.escrow:
            dm = [("payer", 1, 1), ("delegated", 1, 1), ("program", 0, 0), ("dbuffer", 0, 1), ("record", 0, 1), ("meta", 0, 1),
                  ("system", 0, 0)]
            for r in c.run(s.w, t.fork(), dm, tag(0) + pack(s.var("arg.freq", 32), 4) + s.seedcells + [0]):
                refused(r, b, "a delegated account cannot be delegated again")
        for t, slot, lam, content in s.commit(t, nc, True):
            b = s.w.snap(t)
            for r in c.run(s.w, t.fork(), metas, tag(3)):
                refused(r, b, "undelegation with a pending commit is refused")
            slot2, lam2 = s.var("arg.slot", 64), s.var("arg.lamports", 64)
            for v, vv in (("validator", "vvault"), ("validator2", "vvault2")):
                cm = [(v, 1, 1), ("delegated", 0, 0), ("cstate", 0, 1), ("crec", 0, 1), ("record", 0, 0), ("meta", 0, 1), (vv, 0, 0),
                      ("pconf", 0, 0), ("system", 0, 0)]
                for r in c.run(s.w, t.fork(), cm, tag(1) + pack(slot2, 8) + pack(lam2, 8) + s.w.sym_bytes("allow2", 1) +
                               list(u(nc2, 4)) + s.w.sym_bytes("again", nc2)):
                    refused(r, b, "a second commit does not displace the pending one")
            fm = [("validator2", 1, 1), ("delegated", 0, 1), ("cstate", 0, 1), ("crec", 0, 1), ("record", 0, 1), ("meta", 0, 1),
                  ("vvault2", 0, 1), ("system", 0, 0)]
            for r in c.run(s.w, t.fork(), fm, tag(2)):
                refused(r, b, "another validator's finalization is refused")
            for t in s.finalize(t):
                q = s.w.snap(t)
                c.claim(t, "the pending commit is finalized all the same", And(
                    same_bytes(q["delegated"].cells, content), eq(q["delegated"].lamports, lam, 64)))
                # permission is given: no further commit
                b = q
                cm = [("validator", 1, 1), ("delegated", 0, 0), ("cstate", 0, 1), ("crec", 0, 1), ("record", 0, 0), ("meta", 0, 1),
                      ("vvault", 0, 0), ("pconf", 0, 0), ("system", 0, 0)]
                for r in c.run(s.w, t.fork(), cm, tag(1) + pack(slot2, 8) + pack(lam2, 8) + s.w.sym_bytes("allow2", 1) +
                               list(u(nc2, 4)) + s.w.sym_bytes("again", nc2)):
                    refused(r, b, "no commit after undelegation is allowed")
                # finalizing again does nothing and does not fail
                for r in s.finalize(t):
                    c.claim(r, "finalizing again changes nothing", s.same(b, s.w.snap(r)))
                    for r in s.undelegate(r):
                        s.returned(r, content, lam)
                        b = s.w.snap(r)
                        for x in c.run(s.w, r.fork(), metas, tag(3)):
                            refused(x, b, "an account that is back cannot be undelegated again")
                        hit.append(1)
    c.expect("a complete history", hit)


each("C24", [dict()], "long")(out_of_turn)
each("C24", [dict(nd=0, nc=0, nc2=0), dict(conf=2, nd=1)], "thorough")(out_of_turn)


# ---- again
def again(c, nc=2, nd2=4, nc2=1, **k):
    """after coming back the account can be delegated anew, from a clean slate"""
    s = Ledger(c, **k)
    hit = []
    for t in s.delegate(s.f.st):
        for t, slot, lam, content in s.commit(t, 0 if s.escrow else nc, True):
            for t in s.finalize(t):
                for t in s.undelegate(t):
                    for t in s.delegate(t, None if s.escrow else nd2):
                        lam1 = s.w.view(t, "delegated").lamports
                        # any slot is fresh again
                        for t, slot2, lam2, content2 in s.commit(t, 0 if s.escrow else nc2, True):
                            for t in s.finalize(t):
                                for t in s.undelegate(t):
                                    hit.append(1)
                                    s.returned(t, content2, lam2)
    c.expect("two complete cycles", hit)


each("C24", [dict()], "long")(again)
each("C24", [dict(nd=0, nc=0, nd2=0, nc2=0), dict(escrow=True, nd=0), dict(conf=2, nd2=0, nc2=3)], "thorough")(again)
