"""Escrows (ephemeral balances)."""
from fx import *
from p_commit import each, nm
from p_finalize import effective


def escrow_of(f, t, who):
    return f.pda(t, b"balance", who, pack(f.index, 1))


# ---- C16
TS = [dict(), dict(alias={"pubkey": "payer"}), dict(elen=2)]
TD = [dict(trailing=1), dict(alias={"escrow": "payer"}), dict(alias={"escrow": "pubkey"}), dict(elen=40),
      dict(alias={"pubkey": "system"})]


def tops_up(c, **k):
    f = topup(c, **k)
    al = k.get("alias") or {}
    seen = False
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        mine = eq(g("escrow").key, escrow_of(f, t, g("pubkey").key), 256)
        x0 = B(g("escrow").lamports)
        fresh = owned(g("escrow"), SYSTEM)
        miss = If(And(fresh, ULT(x0, B(rent(0)))), B(rent(0)) - x0, B(0))
        if t.result[0] != "ok":
            if "escrow" not in al and not k.get("trailing"):
                ok = [f.signer("payer"), f.writable("payer"), owned(g("payer"), SYSTEM), f.writable("escrow"), mine,
                      ULE(B(f.amount), B(1 << 57)), UGE(B(g("payer").lamports), miss + B(f.amount))]
                if k.get("elen"):
                    ok.append(Not(fresh))
                c.never(t, "a valid top-up succeeds", land(ok),
                        what="a top-up satisfying every requirement fails (%s)" % (t.result,))
            continue
        seen = True
        q = f.post(t)
        h = lambda n: f.v(q, n)
        eff = Not(f.unchanged(q))
        c.claim(t, "the payer signed", f.signer("payer"), eff)
        c.claim(t, "it is the escrow of the named owner and index", mine, eff)
        c.claim(t, "exactly the amount, and missing rent, arrives",
                B(h("escrow").lamports) == x0 + miss + B(f.amount))
        c.claim(t, "the payer pays exactly that", And(
            B(h("payer").lamports) == B(g("payer").lamports) - miss - B(f.amount),
            ULE(B(h("payer").lamports), B(g("payer").lamports))))
        c.claim(t, "owner and data of the escrow stay", land([
            eq(h("escrow").owner, g("escrow").owner, 256), same_bytes(h("escrow").cells, g("escrow").cells)]))
        c.claim(t, "nothing else changes", f.unchanged(q, but=("payer", "escrow")))
    if "escrow" not in al and not k.get("trailing"):
        c.expect("a top-up", seen)


each("C16", TS)(tops_up)
each("C16", TD[:1] + TD[3:], "thorough")(tops_up)

# ---- C17
CS = [dict(), dict(elen=1), dict(extra=3)]


def closes(c, **k):
    f = close_escrow(c, **k)
    seen = False
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        mine = eq(g("escrow").key, escrow_of(f, t, g("payer").key), 256)
        if t.result[0] != "ok":
            if not k.get("elen"):
                c.never(t, "the owner can always close its escrow", land([
                    f.signer("payer"), f.writable("payer"), f.writable("escrow"), owned(g("escrow"), SYSTEM), mine]),
                    what="closing an escrow fails for its owner (%s)" % (t.result,))
            continue
        q = f.post(t)
        h = lambda n: f.v(q, n)
        if not k.get("elen"):
            c.claim(t, "the whole balance is paid to the owner", And(
                B(h("escrow").lamports) == 0,
                B(h("payer").lamports) == B(g("payer").lamports) + B(g("escrow").lamports)))
        eff = Not(f.unchanged(q))
        if c.refute(t, [eff]) is None:
            continue
        seen = True
        c.claim(t, "the owner signed", And(f.signer("payer"), mine), eff)
        c.claim(t, "the escrow is not delegated", owned(g("escrow"), SYSTEM), eff)
        c.claim(t, "only balances change", land([
            same_bytes(h(n).cells, g(n).cells) for n in ("payer", "escrow")] + [
            eq(h(n).owner, g(n).owner, 256) for n in ("payer", "escrow")]), eff)
        c.claim(t, "nothing else changes", f.unchanged(q, but=("payer", "escrow")), eff)
    if not k.get("elen"):
        c.expect("a withdrawal", seen)


each("C17", CS)(closes)


def closes_alias(c, **k):
    """an owner that is its own escrow cannot exist"""
    f = close_escrow(c, **k)
    for t in f.go():
        if t.result[0] == "ok":
            c.claim(t, "nothing happens", f.unchanged(f.post(t)))


each("C17", [dict(alias={"escrow": "payer"}, elen=0)], "thorough")(closes_alias)
DS = [dict(), dict(seeds=(), with_validator=False), dict(blen=2), dict(rec_len=96)]
DD = [dict(alias={"pubkey": "payer"}), dict(meta_len=20), dict(elen=3, blen=3), dict(seeds=(5, 6)),
      dict(alias={"dbuffer": "escrow"}), dict(alias={"record": "meta"}), dict(alias={"pubkey": "escrow"})]


def delegates(c, ordered=False, **k):
    f = deleg_escrow(c, **k)
    if ordered:
        x = f.w.acct[f.slot["escrow"]].key
        for n, key in (("record", f.pda(f.st, b"delegation", x)), ("meta", f.pda(f.st, b"delegation-metadata", x)),
                       ("dbuffer", f.pda(f.st, b"buffer", x, prog=SYSTEM))):
            f.assume(eq(f.w.acct[n].key, key, 256))
        c.note("delegate escrow: buffer, record and metadata in the documented order")
    al = k.get("alias") or {}
    plain = not (set(al) - {"pubkey"}) and al.get("pubkey") != "escrow" and not any(
        x in k for x in ("rec_len", "meta_len", "blen", "elen"))
    seen = False
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        who, x = g("pubkey").key, g("escrow")
        mine = eq(x.key, escrow_of(f, t, who), 256)
        rk, mk = f.pda(t, b"delegation", x.key), f.pda(t, b"delegation-metadata", x.key)
        mlen = 8 + 8 + 1 + 4 + (4 + 7) + (4 + 32) + (4 + 1) + 32
        if t.result[0] != "ok":
            if plain:
                c.never(t, "a valid escrow delegation succeeds", land([
                    f.signer("payer"), f.writable("payer"), owned(g("payer"), SYSTEM), f.signer("pubkey"),
                    f.writable("escrow"), f.writable("dbuffer"), f.writable("record"), f.writable("meta"), mine,
                    Or(owned(x), owned(x, SYSTEM)), uninit(g("record")), uninit(g("meta")),
                    eq(g("record").key, rk, 256), eq(g("meta").key, mk, 256),
                    eq(g("dbuffer").key, f.pda(t, b"buffer", x.key, prog=SYSTEM), 256),
                    UGE(B(g("payer").lamports), B(rent(96) + rent(mlen)))]),
                    what="an escrow delegation satisfying every requirement fails (%s)" % (t.result,))
            continue
        q = f.post(t)
        h = lambda n: f.v(q, n)
        eff = Not(f.unchanged(q))
        if c.refute(t, [eff]) is None:
            continue
        seen = True
        r, m = Rec(h("record")), Meta(h("meta"), (7, 32, 1))
        c.claim(t, "owner and payer signed", And(f.signer("payer"), f.signer("pubkey"), mine), eff)
        # the accounts are found by address, so they may come in any order
        was = lambda key: lor([land([eq(g(n).key, key, 256), uninit(g(n)), owned(h(n))]) for n in f.pre])
        c.claim(t, "it was not delegated", land([was(rk), was(mk), Or(owned(x), owned(x, SYSTEM))]), eff)
        c.claim(t, "the escrow is delegated with its balance", land([
            owned(h("escrow")), eq(h("escrow").lamports, x.lamports, 64)]), eff)
        eff = land([eff, eq(g("record").key, rk, 256), eq(g("meta").key, mk, 256)])
        if c.refute(t, [eff]) is None:
            continue
        c.claim(t, "record and metadata exist", land([T(r.ok), T(m.ok), owned(h("record")), owned(h("meta"))]), eff)
        if not (r.ok and m.ok):
            continue
        c.claim(t, "it is recorded as the system's", land([
            eq(r.disc, D_RECORD, 64), eq(r.owner, SYSTEM, 256), eq(r.authority, f.auth, 256),
            eq(r.freq, z3.ZeroExt(32, f.freq), 64), eq(r.lamports, x.lamports, 64)]), eff)
        want = list(u(3, 4)) + list(u(7, 4)) + list(b"balance") + list(u(32, 4)) + list(kb(who)) + list(u(1, 4)) + pack(f.index, 1)
        c.claim(t, "the seeds are those of the owner and index", land([
            eq(m.disc, D_META, 64), same_bytes(m.seeds_cells, want), eq(m.last, 0, 64), eq(m.und, 0, 8),
            eq(m.payer, g("payer").key, 256)]), eff)
        c.claim(t, "nothing else changes", f.unchanged(q, but=("payer", "escrow", "record", "meta")), eff)
        paid = B(g("payer").lamports) - B(h("payer").lamports)
        got = B(h("record").lamports) - B(g("record").lamports) + B(h("meta").lamports) - B(g("meta").lamports)
        c.claim(t, "only the payer pays, exactly the rent", And(
            paid == got, ULE(B(h("payer").lamports), B(g("payer").lamports)),
            B(h("record").lamports) == mx(B(g("record").lamports), B(rent(96))),
            B(h("meta").lamports) == mx(B(g("meta").lamports), B(rent(h("meta").len)))), eff)
    if plain:
        c.expect("a delegation", seen)


each("C17", [dict(ordered=True, **x) for x in DS + DD[:1]])(delegates)
each("C17", DS + DD, "thorough")(delegates)
