"""Committing a state."""
from fx import *

SHAPES = [dict(seeds=(32, 3)), dict(buf=True, nd=5), dict(conf=2), dict(conf=1, buf=True), dict(nc=0, nd=0, seeds=()), dict(conf=0)]
DEEP = [dict(conf=3), dict(conf=2, buf=True), dict(seeds=(4, 32)), dict(seeds=(1, 0, 7), buf=True, nc=0),
        dict(nc=64, nd=32), dict(nc=300, nd=1, buf=True), dict(nc=10240, nd=2, buf=True), dict(seeds=(2,) * 15), dict(nc=10240, nd=10240), dict(nd=0, nc=9), dict(cs_len=1), dict(cr_len=88),
        dict(rec_len=95), dict(rec_len=104), dict(rec_len=0), dict(meta_len=8), dict(meta_len=60), dict(trailing=1),
        dict(trailing=1, buf=True)]
BIG = [dict(nd=300, nc=800), dict(buf=True, nd=5, nc=1300)]
LONG = [dict(conf=8, ordered=True, ready=True)]
LONGER = [dict(conf=12, ordered=True, ready=True), dict(conf=24, ordered=True, ready=True)]
ALIAS = [dict(alias={"buffer": "delegated"}, buf=True, nc=4, nd=4), dict(alias={"buffer": "validator"}, buf=True, nc=0),
         dict(alias={"delegated": "validator"}, nd=0), dict(alias={"vvault": "record"}), dict(alias={"crec": "cstate"}),
         dict(alias={"pconf": "vvault"}), dict(alias={"meta": "record"}), dict(alias={"cstate": "delegated"}, nd=0),
         dict(alias={"buffer": "cstate"}, buf=True, nc=0), dict(alias={"pconf": "record"}), dict(alias={"pconf": "cstate"})]


def nm(k):
    return ",".join("%s=%s" % x for x in sorted(k.items())).replace(" ", "") or "plain"


def each(prop, shapes, tier="quick"):
    def d(fn):
        for k in shapes:
            scenario(prop, "%s[%s]" % (fn.__name__, nm(k)), tier, **k)(fn)
        return fn
    return d


def views(f, p):
    d = f.pre["delegated"] if "delegated" in f.pre else f.v(f.pre, "delegated")
    return d


# ---- C01 who may commit
def authorized(c, **k):
    f = commit(c, **k)
    effective = False
    for t in f.go():
        if t.result[0] != "ok":
            continue
        p, q = f.pre, f.post(t)
        g = lambda n: f.v(p, n)
        eff = Not(f.unchanged(q))
        d = g("delegated").key
        if c.e.check(t, eff):
            effective = True
        else:
            continue
        c.claim(t, "committer signed", f.signer("validator"), eff)
        c.claim(t, "committer has a registered fees vault", land([
            eq(g("vvault").key, f.pda(t, b"v-fees-vault", g("validator").key), 256), owned(g("vvault"))]), eff)
        c.claim(t, "account is delegated", owned(g("delegated")), eff)
        c.claim(t, "delegation record is the account's", land([
            eq(g("record").key, f.pda(t, b"delegation", d), 256), owned(g("record"))]), eff)
        c.claim(t, "delegation metadata is the account's", land([
            eq(g("meta").key, f.pda(t, b"delegation-metadata", d), 256), owned(g("meta"))]), eff)
        r = Rec(g("record"))
        if not r.ok:
            c.never(t, "commit with a malformed delegation record", eff)
            continue
        pc = g("pconf")
        c.claim(t, "approved list is the owner program's",
                eq(pc.key, f.pda(t, b"p-conf", r.owner), 256), eff)
        if pc.len >= 12 and (pc.len - 12) % 32 == 0:
            ent = [pc.b(12 + 32 * j, 32) for j in range((pc.len - 12) // 32)]
            c.claim(t, "committer is on the owner program's approved list",
                    Or(owned(pc, SYSTEM), And(eq(pc.b(0, 8), D_CONFIG, 64),
                                              lor([eq(x, g("validator").key, 256) for x in ent]))), eff)
        else:
            c.claim(t, "no approved list exists", owned(pc, SYSTEM), eff)
    if not (k.get("alias") or k.get("rec_len") is not None or k.get("meta_len") is not None or k.get("trailing")
            or k.get("cs_len") or k.get("cr_len")):
        c.expect("an accepted commit", effective)


each("C01", SHAPES)(authorized)
each("C01", LONG, "soft")(authorized)
each("C01", LONGER, "thorough")(authorized)
each("C01", ALIAS[:3])(authorized)
each("C01", DEEP + ALIAS[3:], "thorough")(authorized)


# ---- C02 recency
def recency(c, **k):
    f = commit(c, **k)
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        m = Meta(g("meta"), f.lens)
        if t.result[0] != "ok":
            # an outdated commit of an otherwise valid bundle is skipped, not failed
            c.never(t, "outdated commit is skipped without failing", commit_valid(f, t, fresh_slot=False))
            continue
        q = f.post(t)
        c.claim(t, "an outdated commit has no effect", f.unchanged(q), ULT(B(f.slotv), B(m.last)))
        c.claim(t, "committing does not move the finalized slot", eq(Meta(f.v(q, "meta"), f.lens).last, m.last, 64))
        k2 = CRec(f.v(q, "crec"))
        if k2.ok:
            c.claim(t, "an accepted commit is not older than the finalized one", UGE(B(k2.slot), B(m.last)))


each("C02", SHAPES[:4])(recency)
each("C02", BIG[:1], "soft")(recency)
each("C02", SHAPES[4:] + [x for x in DEEP if not any(y in x for y in ("meta_len", "rec_len", "cs_len", "cr_len", "trailing"))], "thorough")(recency)


# ---- C03 nothing after undelegation was allowed
def sealed(c, **k):
    f = commit(c, **k)
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        m = Meta(g("meta"), f.lens)
        if t.result[0] != "ok":
            continue
        q = f.post(t)
        m2 = Meta(f.v(q, "meta"), f.lens)
        c.claim(t, "no commit has an effect once undelegation is allowed", f.unchanged(q), B(m.und, 8) != 0)
        eff = Not(f.unchanged(q))
        c.claim(t, "an accepted commit records whether undelegation is allowed",
                And(B(m2.und, 8) == B(f.allow, 8), ULE(B(f.allow, 8), B(1, 8))), eff)
        accepted = And(Not(owned(g("crec"), DLP)), owned(f.v(q, "crec"), DLP))
        c.claim(t, "only an accepted commit changes whether undelegation is allowed", accepted,
                Not(eq(m2.und, m.und, 8)))


each("C03", SHAPES[:4])(sealed)
each("C03", SHAPES[4:] + [x for x in DEEP if not any(y in x for y in ("meta_len", "rec_len", "cs_len", "cr_len", "trailing"))], "thorough")(sealed)


# ---- C04 fidelity
def fidelity(c, **k):
    f = commit(c, **k)
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        if t.result[0] != "ok":
            if not k.get("alias"):
                c.never(t, "a valid commit is accepted", commit_valid(f, t),
                        what="a commit satisfying every documented requirement is rejected (%s)" % (t.result,))
            continue
        q = f.post(t)
        m, m2 = Meta(g("meta"), f.lens), Meta(f.v(q, "meta"), f.lens)
        eff = Not(f.unchanged(q))
        if c.refute(t, [eff]) is None:
            continue
        cs, cr = f.v(q, "cstate"), f.v(q, "crec")
        r2 = CRec(cr)
        d = g("delegated").key
        c.claim(t, "pending state is exactly the committed bytes", same_bytes(cs.cells, f.content), eff)
        c.claim(t, "pending state is held by the program at the account's address",
                land([owned(cs), eq(cs.key, f.pda(t, b"state-diff", d), 256)]), eff)
        c.claim(t, "pending record names committer, account, slot and balance", land([
            T(r2.ok), owned(cr), eq(cr.key, f.pda(t, b"commit-state-record", d), 256)] + ([
                eq(r2.disc, D_COMMIT, 64), eq(r2.identity, g("validator").key, 256), eq(r2.account, d, 256),
                eq(r2.slot, f.slotv, 64), eq(r2.lamports, f.lam, 64)] if r2.ok else [])), eff)
        c.claim(t, "there was no other pending commit", And(uninit(g("cstate")), uninit(g("crec"))), eff)
        mv, nv = g("meta"), f.v(q, "meta")
        same_rest = land([T(mv.len == nv.len), same_bytes(mv.cells[:16], nv.cells[:16]),
                          same_bytes(mv.cells[17:], nv.cells[17:]), eq(mv.owner, nv.owner, 256),
                          eq(mv.lamports, nv.lamports, 64)])
        c.claim(t, "nothing else of the delegation changes", And(
            same_rest, f.unchanged(q, *[n for n in f.pre if n not in (
                "validator", "cstate", "crec", "meta")])), eff)


each("C04", SHAPES[:5])(fidelity)
each("C04", LONG + BIG, "soft")(fidelity)
each("C04", LONGER, "thorough")(fidelity)
each("C04", [SHAPES[5]] + [x for x in DEEP if not any(y in x for y in ("meta_len", "rec_len", "cs_len", "cr_len", "trailing"))], "thorough")(fidelity)
each("C04", [ALIAS[0]], "thorough")(fidelity)


# ---- C05 collateral
def collateral(c, **k):
    f = commit(c, **k)
    for t in f.go():
        if t.result[0] != "ok":
            continue
        g = lambda n: f.v(f.pre, n)
        q = f.post(t)
        h = lambda n: f.v(q, n)
        r = Rec(g("record"))
        eff = Not(f.unchanged(q))
        if c.refute(t, [eff]) is None:
            continue
        dep = If(UGT(B(f.lam), B(r.lamports)), B(f.lam) - B(r.lamports), B(0))
        c.claim(t, "the whole increase is on deposit with the pending commit", And(
            UGE(B(h("cstate").lamports), dep), UGE(B(h("cstate").lamports), B(g("cstate").lamports))), eff)
        c.claim(t, "pending accounts are rent exempt", And(
            UGE(B(h("cstate").lamports), B(rent(h("cstate").len))), UGE(B(h("crec").lamports), B(rent(h("crec").len)))), eff)
        paid = (B(h("cstate").lamports) - B(g("cstate").lamports)) + (B(h("crec").lamports) - B(g("crec").lamports))
        c.claim(t, "the committer alone pays, exactly what is deposited", And(
            B(g("validator").lamports) - B(h("validator").lamports) == paid,
            ULE(B(h("validator").lamports), B(g("validator").lamports))), eff)
        mx = lambda a, b: If(UGE(a, b), a, b)
        c.claim(t, "the deposit is the increase, and rent where that does not cover it", And(
            B(h("cstate").lamports) == mx(B(g("cstate").lamports) + dep, B(rent(h("cstate").len))),
            B(h("crec").lamports) == mx(B(g("crec").lamports), B(rent(h("crec").len)))), eff)
        c.claim(t, "no other balance changes", land([eq(g(n).lamports, h(n).lamports, 64) for n in (
            "delegated", "record", "meta", "vvault", "pconf")]), eff)
        c.claim(t, "the account holds what its record says", UGE(B(g("delegated").lamports), B(r.lamports)), eff)


each("C05", SHAPES[:3])(collateral)
each("C05", BIG, "soft")(collateral)
each("C05", SHAPES[3:] + [x for x in DEEP if not any(y in x for y in ("meta_len", "rec_len", "cs_len", "cr_len", "trailing"))], "thorough")(collateral)
