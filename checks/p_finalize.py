"""Finalizing a pending commit."""
from fx import *
from p_commit import each, nm

SH = [dict(), dict(nd=5, nc=2), dict(nd=0, nc=3, seeds=()), dict(nd=3, nc=0), dict(nd=4, nc=4, seeds=(1, 32, 5))]
BIG = [dict(nd=1500, nc=2), dict(nd=0, nc=1300, seeds=()), dict(nd=700, nc=700)]
DEEP = [dict(nd=0, nc=0), dict(nd=5, nc=2), dict(nd=1, nc=10241), dict(nd=20000, nc=10240), dict(seeds=(3,) * 15), dict(nd=64, nc=33), dict(nd=1, nc=200), dict(nd=200, nc=1), dict(seeds=(2, 0, 32)),
        dict(nd=10, nc=10300), dict(nd=1000, nc=1200)]
ODD = [dict(cr_len=0), dict(nc=0, cr_len=0), dict(cr_len=87), dict(rec_len=95), dict(rec_len=88), dict(trailing=3)]
ALIAS = [dict(alias={"delegated": "validator"}, nd=0), dict(alias={"crec": "record"}), dict(alias={"cstate": "delegated"}, nd=0),
         dict(alias={"vvault": "cstate"}, nc=8), dict(alias={"crec": "cstate"}, nc=88), dict(alias={"meta": "record"}),
         dict(alias={"vvault": "validator"}), dict(alias={"cstate": "validator"}, nc=0)]


def odd(k):
    return any(x in k for x in ("alias", "cr_len", "rec_len", "meta_len"))


def effective(c, f, t):
    """(post views, condition that something changed) or None"""
    q = f.post(t)
    eff = Not(f.unchanged(q))
    if c.refute(t, [eff]) is None:
        return q, None
    return q, eff


# ---- C06
def applies(c, **k):
    f = finalize(c, **k)
    seen = False
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        if t.result[0] != "ok":
            if not odd(k) and k.get("nc", 5) <= k.get("nd", 4) + 10240:
                c.never(t, "a valid finalization succeeds", finalize_valid(f, t),
                        what="a finalization satisfying every requirement fails (%s)" % (t.result,))
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        h = lambda n: f.v(q, n)
        d, d2, r, r2 = g("delegated"), h("delegated"), Rec(g("record")), Rec(h("record"))
        m, m2, p = Meta(g("meta"), f.lens), Meta(h("meta"), f.lens), CRec(g("crec"))
        if not (r.ok and r2.ok and m2.ok and p.ok):
            c.never(t, "finalization with malformed records has no effect", eff)
            continue
        c.claim(t, "the account's data is exactly the pending state", same_bytes(d2.cells, g("cstate").cells), eff)
        c.claim(t, "the account stays delegated", owned(d2), eff)
        c.claim(t, "the pending slot becomes the finalized one", eq(m2.last, p.slot, 64), eff)
        mv, nv = g("meta"), h("meta")
        c.claim(t, "nothing else of the metadata changes", land([
            eq(mv.owner, nv.owner, 256), eq(mv.lamports, nv.lamports, 64), T(mv.len == nv.len),
            same_bytes(mv.cells[:8], nv.cells[:8]), same_bytes(mv.cells[16:], nv.cells[16:])]), eff)
        rv, sv = g("record"), h("record")
        c.claim(t, "nothing of the record but its balance changes", land([
            eq(rv.owner, sv.owner, 256), eq(rv.lamports, sv.lamports, 64),
            same_bytes(rv.cells[:80], sv.cells[:80]), same_bytes(rv.cells[88:], sv.cells[88:])]), eff)
        c.claim(t, "the recorded balance is the account's", eq(r2.lamports, d2.lamports, 64), eff)
        c.claim(t, "pending state and record are gone", And(f.closed(h("cstate")), f.closed(h("crec"))), eff)
    if not odd(k):
        c.expect("an effective finalization", seen or k.get("nc", 5) > k.get("nd", 4) + 10240)


each("C06", SH + ODD[:1])(applies)
each("C06", BIG, "soft")(applies)
each("C06", DEEP + ODD[1:], "thorough")(applies)


# ---- C07
def settles(c, **k):
    f = finalize(c, **k)
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        if t.result[0] != "ok":
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        h = lambda n: f.v(q, n)
        r, r2, p = Rec(g("record")), Rec(h("record")), CRec(g("crec"))
        L = lambda n: B(g(n).lamports)
        M = lambda n: B(h(n).lamports)
        com, rec = B(p.lamports), B(r.lamports)
        up = If(UGT(com, rec), com - rec, B(0))
        down = If(UGT(rec, com), rec - com, B(0))
        c.claim(t, "an increase is paid by the deposit, a decrease out of the account", And(
            M("delegated") == L("delegated") + up - down, UGE(L("cstate"), up), UGE(L("delegated") + up, down)), eff)
        c.claim(t, "a decrease goes to the committer's vault", And(
            M("vvault") == L("vvault") + down, UGE(M("vvault"), L("vvault")),
            eq(g("vvault").key, f.pda(t, b"v-fees-vault", g("validator").key), 256)), eff)
        c.claim(t, "the rest of the pending accounts goes back to the committer", And(
            M("validator") == L("validator") + (L("cstate") - up) + L("crec"), eq(p.identity, g("validator").key, 256)), eff)
        c.claim(t, "the pending accounts are emptied", And(M("cstate") == 0, M("crec") == 0), eff)
        c.claim(t, "the recorded balance is the account's", eq(r2.lamports, h("delegated").lamports, 64), eff)
        c.claim(t, "no other balance changes", And(M("record") == L("record"), M("meta") == L("meta")), eff)


each("C07", SH)(settles)
each("C07", BIG[:2], "soft")(settles)
each("C07", DEEP, "thorough")(settles)


# ---- C08
def identity(c, **k):
    f = finalize(c, **k)
    for t in f.go():
        if t.result[0] != "ok":
            continue
        g = lambda n: f.v(f.pre, n)
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        d = g("delegated").key
        p = CRec(g("crec"))
        if not p.ok:
            c.never(t, "finalization without a pending commit has no effect", eff)
            continue
        c.claim(t, "the committer signed", f.signer("validator"), eff)
        c.claim(t, "the pending commit is the signer's", eq(p.identity, g("validator").key, 256), eff)
        c.claim(t, "the pending commit is for this account", eq(p.account, d, 256), eff)
        c.claim(t, "the committer has a registered fees vault", land([
            eq(g("vvault").key, f.pda(t, b"v-fees-vault", g("validator").key), 256), owned(g("vvault"))]), eff)
        c.claim(t, "every account belongs to the delegated account", land([
            owned(g("delegated")), owned(g("record")), owned(g("meta")), owned(g("cstate")), owned(g("crec")),
            eq(g("record").key, f.pda(t, b"delegation", d), 256),
            eq(g("meta").key, f.pda(t, b"delegation-metadata", d), 256),
            eq(g("cstate").key, f.pda(t, b"state-diff", d), 256),
            eq(g("crec").key, f.pda(t, b"commit-state-record", d), 256)]), eff)
        c.claim(t, "the pending record is a commit record", eq(p.disc, D_COMMIT, 64), eff)


each("C08", [SH[0], SH[1], ODD[0], ODD[1]] + ALIAS[:2])(identity)
each("C08", BIG[2:], "soft")(identity)
each("C08", SH[2:] + ODD[2:] + ALIAS[2:], "thorough")(identity)


def nothing_pending(c, **k):
    f = finalize(c, nc=0, cr_len=0, **k)
    ok = False
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        d = g("delegated").key
        idle = land([uninit(g("cstate")), uninit(g("crec"))])
        if t.result[0] == "ok":
            q = f.post(t)
            c.claim(t, "with nothing pending nothing changes", f.unchanged(q), idle)
            ok = True
            continue
        r, m = Rec(g("record")), Meta(g("meta"), f.lens)
        c.never(t, "with nothing pending finalization is skipped without failing", land([
            idle, f.signer("validator"), f.writable("validator"), owned(g("delegated")), owned(g("record")), owned(g("meta")),
            owned(g("vvault")), f.writable("delegated"), f.writable("record"), f.writable("meta"), f.writable("vvault"),
            f.writable("cstate"), f.writable("crec"),
            eq(g("record").key, f.pda(t, b"delegation", d), 256),
            eq(g("meta").key, f.pda(t, b"delegation-metadata", d), 256),
            eq(g("vvault").key, f.pda(t, b"v-fees-vault", g("validator").key), 256),
            eq(g("cstate").key, f.pda(t, b"state-diff", d), 256),
            eq(g("crec").key, f.pda(t, b"commit-state-record", d), 256),
            eq(r.disc, D_RECORD, 64), eq(m.disc, D_META, 64), ULE(B(m.und, 8), B(1, 8))]))
    c.expect("an idle finalization", ok)


each("C08", [dict(), dict(nd=0, seeds=())])(nothing_pending)


# ---- C02, C03: what finalizing does to slot and permission
def monotone(c, **k):
    f = finalize(c, **k)
    for t in f.go():
        if t.result[0] != "ok":
            continue
        g = lambda n: f.v(f.pre, n)
        q = f.post(t)
        m, m2, p = Meta(g("meta"), f.lens), Meta(f.v(q, "meta"), f.lens), CRec(g("crec"))
        # what accepting the commit guaranteed
        c.claim(t, "finalizing never takes the slot back", UGE(B(m2.last), B(m.last)), UGE(B(p.slot), B(m.last)))
        done = Not(f.unchanged(q))
        c.claim(t, "the slot of the finalized commit becomes the last finalized one", eq(m2.last, p.slot, 64), done)


each("C02", [SH[0]])(monotone)
each("C02", SH[1:3], "thorough")(monotone)


def keeps_permission(c, **k):
    f = finalize(c, **k)
    for t in f.go():
        if t.result[0] != "ok":
            continue
        q = f.post(t)
        m, m2 = Meta(f.v(f.pre, "meta"), f.lens), Meta(f.v(q, "meta"), f.lens)
        c.claim(t, "finalizing leaves the permission as it is", eq(m2.und, m.und, 8))


each("C03", [SH[0]])(keeps_permission)
each("C03", SH[1:3], "thorough")(keeps_permission)
