"""Histories that involve the program's administration and escrows."""
from fx import *
from p_commit import each, nm
from p_cycle import Ledger
from p_vaults import DLP_CELLS


class Governed(Ledger):
    """a delegation, with the authorities that register and approve validators"""

    def __init__(s, c, unregistered=(), **k):
        s.unregistered = unregistered
        s.empty = () if "pconf" in k.get("prefund", ()) else ("pconf",)
        super().__init__(c, **k)
        f, w = s.f, s.w
        for n, who, prog in (("dlpdata", "admin", DLP_CELLS), ("progdata", "upgrader", kb(s.K(s.program)))):
            f.assume(eq(s.K(n), f.pda(f.st, prog, prog=LOADER), 256), eq(w.vars[n + ".variant"], 3, 32),
                     eq(w.vars[n + ".has"], 1, 8), eq(w.vars[n + ".authority"], s.K(who), 256))

    def more(s, f):
        for n in ("admin", "upgrader", "validator3"):
            f.add(n, owner=SYSTEM, data=[])
        for n in ("dlpdata", "progdata"):
            f.add(n, owner=LOADER, data=progdata_cells(f.w, n))

    def register(s, t, who="validator", vault="vvault"):
        b = s.w.snap(t)
        if not s.require(t, UGE(B(b["admin"].lamports), B(rent(8)))):
            return
        metas = [("admin", 1, 1), ("admin", 1, 1), ("dlpdata", 0, 0), (who, 0, 0), (vault, 0, 1), ("system", 0, 0)]
        yield from s.do(t, "registration", metas, tag(6))

    def remove(s, t, who="validator", vault="vvault"):
        b = s.w.snap(t)
        metas = [("admin", 1, 1), ("admin", 1, 1), ("dlpdata", 0, 0), (who, 0, 1), (vault, 0, 1)]
        for r in s.do(t, "removal of a validator", metas, tag(14)):
            q = s.w.snap(r)
            s.c.claim(r, "a removed validator gets its vault", B(q[who].lamports) == B(b[who].lamports) + B(b[vault].lamports))
            yield r

    def approve(s, t, who, insert, by="upgrader"):
        b = s.w.snap(t)
        if not s.require(t, UGE(B(b[by].lamports), B(rent(500)))):
            return
        metas = [(by, 1, 1), (who, 0, 0), (s.program, 0, 0), ("progdata", 0, 0), ("dlpdata", 0, 0), ("pconf", 0, 1), ("system", 0, 0)]
        for r in s.do(t, "approval" if insert else "withdrawal of an approval", metas, tag(8) + [int(insert)]):
            q = s.w.snap(r)
            s.c.claim(r, "only the authority pays for the list",
                      s.total(q) == s.total(b) if by in q else T(False))
            s.c.claim(r, "only the authority pays for the list", s.same(b, q, *[n for n in b if n not in (by, "pconf")]))
            yield r

    def accepts(s, t, nc, **k):
        """a commit that keeps the balance is accepted, and the state is pending (the history goes on without it)"""
        n = 0
        for _ in s.commit(t.fork(), nc, False, keep=True, **k):
            n += 1
        return n

    def refuses(s, t, label, nc, by="validator", vault="vvault"):
        b = s.w.snap(t)
        t = t.fork()
        slot, lam = s.var("arg.slot", 64), s.var("arg.lamports", 64)
        cm = [(by, 1, 1), ("delegated", 0, 0), ("cstate", 0, 1), ("crec", 0, 1), ("record", 0, 0), ("meta", 0, 1), (vault, 0, 0),
              ("pconf", 0, 0), ("system", 0, 0)]
        for r in s.c.run(s.w, t, cm, tag(1) + pack(slot, 8) + pack(lam, 8) + [0] + list(u(nc, 4)) +
                         s.w.sym_bytes("refused%d" % s.n, nc)):
            if r.result[0] == "ok":
                s.c.claim(r, label, s.same(b, s.w.snap(r)), what=label)


# ---- C28
def registration(c, nc=2, **k):
    s = Governed(c, unregistered=("vvault",), **k)
    hit = []
    for t in s.delegate(s.f.st):
        s.refuses(t, "a validator that is not registered cannot commit", nc)
        for t in s.register(t):
            hit.append(s.accepts(t, nc))
            for t in s.remove(t):
                s.refuses(t, "a validator that was removed cannot commit", nc)
                for t in s.register(t):
                    hit.append(s.accepts(t, nc))
    c.expect("registered, removed and registered again", len(hit) >= 2 and all(hit))


def suspended(c, nc=2, **k):
    """a validator is removed while its commit is pending: nothing moves until it is registered again"""
    s = Governed(c, **k)
    hit = []
    fm = [("validator", 1, 1), ("delegated", 0, 1), ("cstate", 0, 1), ("crec", 0, 1), ("record", 0, 1), ("meta", 0, 1), ("vvault", 0, 1),
          ("system", 0, 0)]
    um = [("validator", 1, 1), ("delegated", 0, 1), (s.program, 0, 0), ("ubuffer", 0, 1), ("cstate", 0, 0), ("crec", 0, 0),
          ("record", 0, 1), ("meta", 0, 1), ("payer", 0, 1), ("fvault", 0, 1), ("vvault", 0, 1), ("system", 0, 0)]

    def refused(t, metas, data, label):
        b = s.w.snap(t)
        for r in c.run(s.w, t.fork(), metas, data):
            if r.result[0] == "ok":
                c.claim(r, label, s.same(b, s.w.snap(r)), what=label)

    for t in s.delegate(s.f.st):
        for t, slot, lam, content in s.commit(t, nc, True):
            for t in s.remove(t):
                refused(t, fm, tag(2), "a removed validator cannot finalize")
                for t in s.register(t):
                    for t in s.finalize(t):
                        for t in s.remove(t):
                            refused(t, um, tag(3), "a removed validator cannot undelegate")
                            # another one can
                            for t in s.undelegate(t, "validator2", "vvault2"):
                                hit.append(1)
                                s.returned(t, content, lam)
    c.expect("a complete history", hit)


def approvals(c, nc=2, by="upgrader", third=False, short=False, **k):
    s = Governed(c, **k)
    hit = []
    no, out, nobody = ("a validator that is not approved cannot commit", "a validator whose approval was withdrawn cannot commit",
                       "an empty list approves nobody")
    v2 = dict(by="validator2", vault="vvault2")

    def yes(t, **who):
        hit.append(s.accepts(t, nc, **who))

    def go(t, steps):
        if not steps:
            return
        who, insert, by, one, two = steps[0]
        for t in s.approve(t, who, insert, by) if who else [t]:
            yes(t) if one is None else s.refuses(t, one, nc)
            yes(t, **v2) if two is None else s.refuses(t, two, nc, **v2)
            go(t, steps[1:])

    steps = [(None, None, None, None, None), ("validator", True, by, None, no)]
    if third:
        steps.append(("validator3", True, by, None, no))
    steps += [("validator2", True, "admin", None, None), ("validator", False, by, out, None)]
    if third:
        steps.append(("validator3", False, "admin", out, None))
    steps += [("validator2", False, by, nobody, nobody), ("validator", True, "admin", None, no)]
    if short:
        steps = [steps[1], ("validator", False, by, nobody, nobody), ("validator2", True, by, no, None)]
    for t in s.delegate(s.f.st):
        go(t, steps)
    c.expect("approved, withdrawn and approved again", len(hit) >= (2 if short else 7) and all(hit))


each("C28", [dict(), dict(nd=0, nc=0, prefund=("vvault",))])(registration)
each("C28", [dict(), dict(nd=0, nc=0)], "long")(suspended)
each("C28", [dict()], "long")(approvals)
each("C28", [dict(by="admin", prefund=("pconf",), nd=0, nc=0, short=True)])(approvals)
each("C28", [dict(by="admin", prefund=("pconf",), nd=0, nc=0)], "thorough")(approvals)
each("C28", [dict(conf=1, nd=0)], "thorough")(registration)
each("C28", [dict(conf=2, nd=4, nc=1)], "thorough")(suspended)
each("C28", [dict(third=True), dict(third=True, by="admin", nc=0)], "thorough")(approvals)


# ---- C29
class Escrow(Ledger):
    def __init__(s, c, **k):
        super().__init__(c, escrow=True, nd=0, **k)
        s.f.assume(eq(s.start["owner"].owner, SYSTEM, 256))

    def more(s, f):
        for n in ("friend", "stranger"):
            f.add(n, owner=SYSTEM, data=[])

    def topup(s, t, who="friend"):
        b = s.w.snap(t)
        x = s.var("topup", 64)
        own = b["delegated"].owner
        fresh = lit(eq(own, SYSTEM, 256))
        e = B(b["delegated"].lamports)
        miss = If(UGE(e, B(rent(0))), B(0), B(rent(0)) - e) if is_c(fresh) and fresh else B(0)
        if not s.require(t, ULE(x, B(1 << 50)), UGE(x, B(1)), UGE(B(b[who].lamports), x + miss)):
            return
        metas = [(who, 1, 1), ("owner", 0, 0), ("delegated", 0, 1), ("system", 0, 0)]
        for r in s.do(t, "top-up", metas, tag(9) + pack(x, 8) + pack(s.index, 1)):
            q = s.w.snap(r)
            s.c.claim(r, "a top-up puts exactly its amount and the missing rent into the escrow", land([
                B(q["delegated"].lamports) == e + x + miss, B(q[who].lamports) == B(b[who].lamports) - x - miss,
                eq(q["delegated"].owner, own, 256), s.same(b, q, *[n for n in b if n not in (who, "delegated")])]))
            s.settle(r, "delegated", e + x + miss)
            s.settle(r, who, B(b[who].lamports) - x - miss)
            yield r, x

    def close(s, t):
        b = s.w.snap(t)
        metas = [("owner", 1, 1), ("delegated", 0, 1), ("system", 0, 0)]
        for r in s.do(t, "withdrawal", metas, tag(11) + pack(s.index, 1)):
            q = s.w.snap(r)
            s.c.claim(r, "the owner withdraws the whole escrow", land([
                B(q["delegated"].lamports) == B(0), B(q["owner"].lamports) == B(b["owner"].lamports) + B(b["delegated"].lamports),
                s.same(b, q, *[n for n in b if n not in ("owner", "delegated")])]))
            yield r

    def safe(s, t, label):
        """nobody else, and not even the owner while it is delegated, takes anything out"""
        b = s.w.snap(t)
        for who in ("stranger", "owner"):
            if who == "owner" and not is_c(lit(eq(b["delegated"].owner, DLP, 256))):
                continue
            if who == "owner" and not lit(eq(b["delegated"].owner, DLP, 256)):
                continue
            i = s.var("arg.index", 8) if who == "stranger" else s.index
            for r in s.c.run(s.w, t.fork(), [(who, 1, 1), ("delegated", 0, 1), ("system", 0, 0)], tag(11) + pack(i, 1)):
                if r.result[0] == "ok":
                    s.c.claim(r, label, s.same(b, s.w.snap(r)), what=label)
        for who, sg in (("stranger", 1), ("owner", 0)):
            for r in s.c.run(s.w, t.fork(), [("stranger", 1, 1), (who, sg, 0), ("delegated", 0, 1), ("dbuffer", 0, 1), ("record", 0, 1),
                                             ("meta", 0, 1), ("system", 0, 0), ("dlp", 0, 0)],
                             tag(10) + pack(s.var("arg.freq", 32), 4) + list(u(0, 4)) + [0] + pack(s.index, 1)):
                if r.result[0] == "ok":
                    s.c.claim(r, label, s.same(b, s.w.snap(r)), what=label)


def escrow_life(c, rounds=1, tops=("during",), **k):
    """tops: when somebody tops the escrow up"""
    s = Escrow(c, **k)
    hit = []
    safe = "only its owner takes anything out of an escrow, and not while it is delegated"
    L0 = s.total(s.start)

    def top(t, when, who="friend"):
        return s.topup(t, who) if when in tops else [(t, B(0))]

    def go(t, j):
        if j == rounds:
            for t, _ in top(t, "back", "owner"):
                for t in s.close(t):
                    c.claim(t, "no lamport is created or lost", s.total(s.w.snap(t)) == L0)
                    # and it can be used again
                    for t, _ in top(t, "after"):
                        hit.append(1)
            return
        for t in s.delegate(t):
            s.safe(t, safe)
            for t, x in top(t, "during"):
                for t, slot, lam, content in s.commit(t, 0, True):
                    for t in s.finalize(t):
                        c.claim(t, "what was put in during the delegation is kept", B(s.w.view(t, "delegated").lamports) == lam + x)
                        for t in s.undelegate(t):
                            d = s.w.view(t, "delegated")
                            c.claim(t, "the escrow is back", And(eq(d.owner, SYSTEM, 256), T(d.len == 0), B(d.lamports) == lam + x))
                            go(t, j + 1)

    for t, _ in top(s.f.st, "first"):
        s.safe(t, safe)
        go(t, 0)
    c.expect("an escrow's life", hit)


each("C29", [dict(), dict(rounds=0, tops=("first", "after"))])(escrow_life)
each("C29", [dict(tops=("first",)), dict(tops=("back",), prefund=("crec",))], "long")(escrow_life)
each("C29", [dict(rounds=2, tops=()), dict(prefund=("record",), tops=("first",)), dict(conf=1, tops=("first", "during", "back")), dict(prefund=("cstate", "meta"), tops=("after",))],
     "thorough")(escrow_life)
