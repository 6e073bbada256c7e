"""Delegating an account."""
from fx import *
from sym import CURVE
from p_commit import each, nm
from p_finalize import effective

PS = {"program": "system"}
SH = [dict(), dict(seeds=(), with_validator=False), dict(nd=0, nb=0, seeds=(7,), alias=PS), dict(nd=3, nb=0, seeds=(2, 5, 32, 1, 1)),
      dict(nd=0, nb=0, seeds=(1,))]
BIG = [dict(nd=1300, nb=1300, seeds=(3,))]
DEEP = [dict(nd=64, seeds=(32, 0, 9)), dict(nd=3000, nb=0, seeds=(2,) * 15), dict(nd=1, seeds=(4, 4, 4, 4), with_validator=False), dict(seeds=(1,) * 6), dict(nd=300, seeds=(8,))]
ODD = [dict(nd=4, nb=3), dict(nd=3, nb=4), dict(rec_len=96), dict(meta_len=64), dict(trailing=1), dict(rec_len=8),
       dict(alias={"delegated": "payer"}, nd=0, nb=0), dict(alias={"meta": "record"}), dict(alias={"dbuffer": "delegated"}),
       dict(alias={"dbuffer": "program"}, nd=2, nb=0), dict(alias={"record": "payer"}), dict(alias={"program": "payer"}),
       dict(seeds=(33,)), dict(seeds=(2,) * 16), dict(seeds=(2,) * 17)]


def odd(k):
    a = k.get("alias") or {}
    return any(x in k for x in ("rec_len", "meta_len", "trailing")) or any(x != ("program", "system") for x in a.items()) or \
        (k.get("nb") is not None and k["nb"] not in (0, k.get("nd", 4))) or any(x > 32 for x in k.get("seeds", ())) or len(k.get("seeds", ())) > 15


def derived(f, t):
    g = lambda n: f.v(f.pre, n)
    own = g("program").key
    d = g("delegated").key
    sys_ = eq(own, SYSTEM, 256)
    mine = eq(d, f.pda(t, *f.seeds), 256)
    s = lit(sys_)
    if is_c(s):
        return mine if s else eq(d, f.pda(t, *f.seeds, prog=own), 256)
    return If(sys_, mine, eq(d, f.pda(t, *f.seeds, prog=own), 256))


def delegate_valid(f, t):
    g = lambda n: f.v(f.pre, n)
    d = g("delegated").key
    mlen = 8 + 8 + 1 + 4 + sum(4 + l for l in f.lens) + 32
    return land([
        f.signer("payer"), f.writable("payer"), owned(g("payer"), SYSTEM), f.signer("delegated"), f.writable("delegated"),
        owned(g("delegated")), f.writable("dbuffer"),
        f.writable("record"), f.writable("meta"), uninit(g("record")), uninit(g("meta")),
        eq(g("dbuffer").key, f.pda(t, b"buffer", d, prog=g("program").key), 256),
        eq(g("record").key, f.pda(t, b"delegation", d), 256),
        eq(g("meta").key, f.pda(t, b"delegation-metadata", d), 256),
        Or(CURVE(bv(d, 256)), derived(f, t)),
        UGE(B(g("payer").lamports), B(rent(96) + rent(mlen)))])


# ---- C13
def gate(c, **k):
    f = delegate(c, **k)
    seen = False
    for t in f.go():
        if t.result[0] != "ok":
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        g = lambda n: f.v(f.pre, n)
        d = g("delegated").key
        c.claim(t, "payer and account signed", And(f.signer("payer"), f.signer("delegated")), eff)
        c.claim(t, "the account is handed over to the program", owned(g("delegated")), eff)
        c.claim(t, "the account is not delegated yet", land([
            uninit(g("record")), uninit(g("meta")), eq(g("record").key, f.pda(t, b"delegation", d), 256),
            eq(g("meta").key, f.pda(t, b"delegation-metadata", d), 256)]), eff)
        c.claim(t, "an off-curve account is derived from its owner program", Or(CURVE(bv(d, 256)), derived(f, t)), eff)
        c.claim(t, "the buffer is the owner program's", eq(g("dbuffer").key, f.pda(t, b"buffer", d, prog=g("program").key), 256), eff)
    if not odd(k):
        c.expect("an effective delegation", seen)


each("C13", SH + ODD[:3])(gate)
each("C13", BIG, "soft")(gate)
each("C13", DEEP + ODD[3:], "thorough")(gate)


# ---- C14
def records(c, **k):
    f = delegate(c, **k)
    seen = False
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        if t.result[0] != "ok":
            if not odd(k):
                c.never(t, "a valid delegation succeeds", delegate_valid(f, t),
                        what="a delegation satisfying every requirement fails (%s)" % (t.result,))
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        h = lambda n: f.v(q, n)
        r, m = Rec(h("record")), Meta(h("meta"), f.lens)
        c.claim(t, "record and metadata have their sizes and are the program's", land([
            T(r.ok), T(m.ok), owned(h("record")), owned(h("meta"))]), eff)
        if not (r.ok and m.ok):
            continue
        clk = [v for kind, tg, v in t.syms if tg == 1]
        c.claim(t, "the record says what was asked", land([
            eq(r.disc, D_RECORD, 64), eq(r.owner, g("program").key, 256), eq(r.authority, f.auth, 256),
            eq(r.freq, z3.ZeroExt(32, f.freq), 64), eq(r.lamports, g("delegated").lamports, 64)]), eff)
        c.claim(t, "the record has the current slot", lor([eq(r.slot, x, 64) for x in clk]), eff)
        want = seeds_cells(f.w, "arg.seed", f.lens)
        c.claim(t, "the metadata says what was asked", land([
            eq(m.disc, D_META, 64), eq(m.last, 0, 64), eq(m.und, 0, 8), same_bytes(m.seeds_cells, want),
            eq(m.payer, g("payer").key, 256)]), eff)
        d, d2, b = g("delegated"), h("delegated"), g("dbuffer")
        c.claim(t, "the account keeps content, balance and stays with the program", land([
            same_bytes(d2.cells, b.cells if b.len else d.cells), eq(d.lamports, d2.lamports, 64), owned(d2)]), eff)
        mx = lambda x, n: If(UGE(B(x), B(rent(n))), B(x), B(rent(n)))
        c.claim(t, "record and metadata are rent exempt and keep what their addresses held", And(
            B(h("record").lamports) == mx(g("record").lamports, 96),
            B(h("meta").lamports) == mx(g("meta").lamports, h("meta").len)), eff)
        if "payer" not in (k.get("alias") or {}).values():
            paid = mx(g("record").lamports, 96) - B(g("record").lamports) + mx(g("meta").lamports, h("meta").len) - B(g("meta").lamports)
            c.claim(t, "only the payer paid", And(
                B(g("payer").lamports) - paid == B(h("payer").lamports), UGE(B(g("payer").lamports), paid)), eff)
        c.claim(t, "nothing else changes", f.unchanged(
            q, but=("payer", "record", "meta", "delegated")), eff)
    if not odd(k):
        c.expect("an effective delegation", seen)


each("C14", SH)(records)
each("C14", BIG, "soft")(records)
each("C14", DEEP + [x for x in ODD if "alias" not in x], "thorough")(records)
