"""Giving an account back to its owner program."""
from fx import *
from p_commit import each, nm
from p_finalize import effective

EXT = [196, 28, 41, 206, 48, 37, 51, 167]
RV = {"rentpayer": "validator"}
PS = {"program": "system"}

SH = [dict(), dict(nd=0), dict(nd=2, seeds=(1, 32, 4), alias=RV), dict(nd=0, seeds=(), alias=PS), dict(nd=0, alias=RV)]
BIG = [dict(nd=1300, alias=RV)]
DEEP = [dict(nd=1, seeds=()), dict(nd=10240, seeds=(2,) * 15), dict(nd=40, seeds=(32, 0, 8)), dict(nd=0, alias={"rentpayer": "validator", "program": "system"})]
ODD = [dict(cs_len=1), dict(cr_len=88), dict(rec_len=95), dict(ub_len=2), dict(alias={"rentpayer": "program"}),
       dict(nd=0, alias={"rentpayer": "delegated"}), dict(alias={"rentpayer": "fvault"}), dict(alias={"rentpayer": "vvault"}),
       dict(alias={"vvault": "fvault"}), dict(alias={"meta": "record"}), dict(nd=0, alias={"delegated": "validator"}),
       dict(alias={"ubuffer": "cstate"}), dict(alias={"ubuffer": "rentpayer"}), dict(alias={"crec": "cstate"}),
       dict(alias={"program": "system"}), dict(nd=0, alias={"program": "delegated"}),
       dict(nd=0, alias={"rentpayer": "system"})]


def odd(k):
    a = k.get("alias") or {}
    return any(x in k for x in ("cs_len", "cr_len", "rec_len", "ub_len")) or \
        any(x not in (("rentpayer", "validator"), ("program", "system")) for x in a.items()) or \
        (a.get("program") and k.get("nd", 3))


def fee(l):
    """(protocol's, validator's, rent payer's) part of a closed account's lamports"""
    l = B(l)
    tot = z3.UDiv(l * 10, B(100))
    prot = z3.UDiv(tot * 10, B(100))
    return prot, tot - prot, l - tot


# ---- C09
def gated(c, mode=0, **k):
    f = undelegate(c, **k)
    seen = False
    for t in f.go(mode=mode):
        if t.result[0] != "ok":
            continue
        g = lambda n: f.v(f.pre, n)
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        h = lambda n: f.v(q, n)
        d = g("delegated").key
        r, m = Rec(g("record")), Meta(g("meta"), f.lens)
        if not (r.ok and m.ok):
            c.never(t, "undelegation with malformed records has no effect", eff)
            continue
        c.claim(t, "a registered validator signed", land([
            f.signer("validator"), eq(g("vvault").key, f.pda(t, b"v-fees-vault", g("validator").key), 256),
            owned(g("vvault"))]), eff)
        c.claim(t, "undelegation was allowed", B(m.und, 8) != 0, eff)
        c.claim(t, "no commit is pending", land([
            uninit(g("cstate")), uninit(g("crec")), eq(g("cstate").key, f.pda(t, b"state-diff", d), 256),
            eq(g("crec").key, f.pda(t, b"commit-state-record", d), 256)]), eff)
        c.claim(t, "the account is delegated, record and metadata are its own", land([
            owned(g("delegated")), owned(g("record")), owned(g("meta")),
            eq(g("record").key, f.pda(t, b"delegation", d), 256),
            eq(g("meta").key, f.pda(t, b"delegation-metadata", d), 256),
            eq(r.disc, D_RECORD, 64), eq(m.disc, D_META, 64)]), eff)
        c.claim(t, "the rent goes to the recorded payer", eq(m.payer, g("rentpayer").key, 256), eff)
        if mode == 0:
            c.claim(t, "the account goes to the recorded owner", eq(h("delegated").owner, r.owner, 256), eff)
        ext = [x for x in t.events if not isinstance(x[0], str) and not (is_c(x[0]) and x[0] == SYSTEM)]
        for x in ext:
            c.claim(t, "only the recorded owner program is called", Or(eq(x[0], r.owner, 256), eq(x[0], SYSTEM, 256)), eff)
    if not odd(k) and mode != 2:
        c.expect("an effective undelegation", seen)


each("C09", SH + [dict(mode=1)] + ODD[:2])(gated)
each("C09", BIG, "soft")(gated)
each("C09", DEEP + ODD[2:] + [dict(mode=2), dict(mode=1, alias=RV)], "thorough")(gated)


# ---- C10
def intact(c, **k):
    f = undelegate(c, **k)
    seen = False
    for t in f.go(mode=0):
        g = lambda n: f.v(f.pre, n)
        r, m = Rec(g("record")), Meta(g("meta"), f.lens)
        d = g("delegated")
        if t.result[0] != "ok":
            if not odd(k):
                c.never(t, "a valid undelegation succeeds", And(
                    undelegate_valid(f, t), T(True) if not d.len else Not(eq(g("program").key, DLP, 256))),
                    what="an undelegation satisfying every requirement fails (%s)" % (t.result,))
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        h = lambda n: f.v(q, n)
        d2 = h("delegated")
        c.claim(t, "the account holds the data it held while delegated", same_bytes(d.cells, d2.cells), eff)
        c.claim(t, "the account holds the balance it held while delegated", eq(d.lamports, d2.lamports, 64), eff)
        c.claim(t, "the account belongs to the recorded owner", eq(d2.owner, r.owner, 256), eff)
        gain = B(0)
        if k.get("alias", {}).get("rentpayer") == "validator":
            gain = fee(g("record").lamports)[2] + fee(g("meta").lamports)[2]
        if d.len:
            c.claim(t, "the validator ends with what it had, and what the buffer's address held", eq(
                h("validator").lamports, B(g("validator").lamports) + B(g("ubuffer").lamports) + gain, 64), eff)
            c.claim(t, "the buffer is gone", f.closed(h("ubuffer")), eff)
            ext = [x for x in t.events if not isinstance(x[0], str)]
            ext = [x for x in ext if c.refute(t, [eq(x[0], r.owner, 256)]) is not None]
            c.claim(t, "the owner program is called once", T(len(ext) == 1), eff)
            if len(ext) != 1:
                continue
            pid, data, metas = ext[0]
            c.claim(t, "the owner program gets the documented call", land([
                eq(pid, r.owner, 256), T(len(metas) == 4), same_bytes(data, EXT + list(m.seeds_cells))]), eff)
            want = [("delegated", 0, 1), ("ubuffer", 1, 1), ("validator", 1, 1), ("system", 0, 0)]
            c.claim(t, "the owner program gets account, signing buffer, paying validator and system program", land(
                [land([eq(x[0], g(n).key, 256), eq(x[1], sg, 8), eq(x[2], wr, 8)])
                 for x, (n, sg, wr) in zip(metas, want)]), eff)
            c.claim(t, "the buffer is the account's", eq(
                g("ubuffer").key, f.pda(t, b"undelegate-buffer", d.key), 256), eff)
        else:
            c.claim(t, "the validator pays nothing", eq(
                h("validator").lamports, B(g("validator").lamports) + gain, 64), eff)
            c.claim(t, "no program is called for an account without data", T(
                not [x for x in t.events if not isinstance(x[0], str)]), eff)
    if not odd(k):
        c.expect("an effective undelegation", seen)


each("C10", SH)(intact)
each("C10", BIG, "soft")(intact)
each("C10", DEEP + [x for x in ODD if (x.get("alias") or {}).get("rentpayer") not in ("delegated",) and "ubuffer" not in (x.get("alias") or {})], "thorough")(intact)


# ---- C11
def hostile(c, mode, **k):
    f = undelegate(c, **k)
    seen = False
    for t in f.go(mode=mode):
        if t.result[0] != "ok":
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        g = lambda n: f.v(f.pre, n)
        h = lambda n: f.v(q, n)
        d, d2 = g("delegated"), h("delegated")
        c.claim(t, "the returned account holds exactly the delegated data", same_bytes(d.cells, d2.cells), eff)
        gain = B(0)
        if k.get("alias", {}).get("rentpayer") == "validator":
            gain = fee(g("record").lamports)[2] + fee(g("meta").lamports)[2]
        v, v2, b = B(g("validator").lamports), B(h("validator").lamports), B(g("ubuffer").lamports)
        c.claim(t, "the validator has no less than before", UGE(v2, v + gain + b), eff)
        c.claim(t, "account and validator together keep everything", v2 + B(d2.lamports) == v + gain + b + B(d.lamports), eff)
    if mode == 1:
        c.expect("a successful undelegation", seen)


each("C11", [dict(mode=1), dict(mode=2), dict(mode=1, nd=2, alias=RV)])(hostile)
each("C11", [dict(mode=1, nd=300)], "soft")(hostile)
each("C11", [dict(mode=1, nd=40), dict(mode=2, nd=1, alias=RV), dict(mode=1, nd=1, seeds=())], "thorough")(hostile)


# ---- C12
def distributes(c, mode=0, **k):
    f = undelegate(c, **k)
    seen = False
    for t in f.go(mode=mode):
        if t.result[0] != "ok":
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        g = lambda n: f.v(f.pre, n)
        h = lambda n: f.v(q, n)
        fr, fm = fee(g("record").lamports), fee(g("meta").lamports)
        L = lambda n: B(g(n).lamports)
        M = lambda n: B(h(n).lamports)
        c.claim(t, "record and metadata are removed", And(f.closed(h("record")), f.closed(h("meta"))), eff)
        if (k.get("alias") or {}).get("rentpayer") in ("fvault", "vvault"):
            continue
        c.claim(t, "the protocol vault gets a tenth of the fees", M("fvault") == L("fvault") + fr[0] + fm[0], eff)
        c.claim(t, "the validator's vault gets the rest of the fees", M("vvault") == L("vvault") + fr[1] + fm[1], eff)
        if not {"rentpayer", "ubuffer"} & set(k.get("alias") or {}):
            c.claim(t, "the rent payer gets everything else", M("rentpayer") == L("rentpayer") + fr[2] + fm[2], eff)
        elif k["alias"].get("rentpayer") == "validator" and mode == 0:
            ub = L("ubuffer") if g("delegated").len else B(0)
            c.claim(t, "the rent payer gets everything else", M("validator") == L("validator") + fr[2] + fm[2] + ub, eff)
        tot = lambda F: z3.Sum([F(n) for n in f.pre])
        c.claim(t, "no lamport is created or lost", tot(L) == tot(M), eff)
        if "program" not in (k.get("alias") or {}):
            c.claim(t, "nobody else is paid", f.unchanged(q, "program", "cstate", "crec"), eff)
        c.claim(t, "vaults keep owner and data", land([
            eq(g(n).owner, h(n).owner, 256) for n in ("fvault", "vvault")] + [
            same_bytes(g(n).cells, h(n).cells) for n in ("fvault", "vvault")]), eff)
        c.claim(t, "the vaults are the registered ones", land([
            eq(g("fvault").key, f.pda(t, b"fees-vault"), 256), owned(g("fvault")),
            eq(g("vvault").key, f.pda(t, b"v-fees-vault", g("validator").key), 256), owned(g("vvault"))]), eff)
    if not odd(k):
        c.expect("an effective undelegation", seen)


each("C12", SH)(distributes)
each("C12", BIG, "soft")(distributes)
each("C12", DEEP + ODD + [dict(mode=1)], "thorough")(distributes)
