"""Malformed instructions."""
from fx import *
from p_commit import each, nm
from p_finalize import effective
from p_frame import SPECS, setup

TAG = {"delegate": 0, "commit": 1, "finalize": 2, "undelegate": 3, "init_protocol_vault": 5, "init_validator_vault": 6,
       "claim_validator_fees": 7, "approve": 8, "top_up": 9, "delegate_escrow": 10, "close_escrow": 11,
       "claim_protocol_fees": 12, "commit_from_buffer": 13, "close_validator_vault": 14}
SMALL = {"undelegate": dict(nd=0), "approve": dict(n=None)}
ARGLESS = ("finalize", "undelegate", "init_protocol_vault", "init_validator_vault", "claim_protocol_fees", "close_validator_vault")
BORSH = [x for x in TAG if x not in ARGLESS and x != "close_escrow"]


def fixture(c, ins, **k):
    s, f = setup(c, ins, **{**SMALL.get(ins, {}), **k})
    return f


def no_effect(c, f, t, label, when=True, what=None):
    if t.result[0] != "ok":
        return
    q, eff = effective(c, f, t)
    if eff is not None:
        c.never(t, label, eff if when is True else And(eff, when), what=what)


# ---- tags
def tags(c, ins):
    """the accounts and arguments of one operation under every tag"""
    f = fixture(c, ins)
    tb = f.w.sym_bytes("tag", 8)
    first = bv(unpack(tb[:1]), 8)
    f.data = tb + f.data[8:]
    c.note("every 8-byte tag, with the accounts and arguments of %s" % ins)
    hit = False
    for t in f.go():
        if t.result[0] != "ok":
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        c.never(t, "an unknown tag does nothing", And(eff, land([Not(eq(first, x, 8)) for x in TAG.values()])),
                what="an instruction with an unknown tag is executed")
        hit = hit or c.refute(t, [eff, first == B(TAG[ins], 8)]) is not None
    c.expect("the right tag works", hit)


def truncated(c, ins):
    """fewer than eight bytes"""
    for n in range(8):
        f = fixture(c, ins)
        f.data = f.w.sym_bytes("tag", n)
        c.note("every tag of 0 to 7 bytes, with the accounts of %s" % ins)
        for t in f.go():
            no_effect(c, f, t, "a truncated tag does nothing")
            if t.result[0] not in ("ok", "err"):
                c.claim(t, "a truncated tag is rejected cleanly", T(False))


# ---- other programs
def foreign(c, ins):
    """the same instruction, run as another program"""
    f = fixture(c, ins)
    pid = f.w.var("pid", 256)
    f.assume(Not(eq(pid, DLP, 256)))
    c.note("every other program id, with the accounts and arguments of %s" % ins)
    for t in f.go(pid=pid):
        c.never(t, "only its own address executes it", T(t.result[0] == "ok"))


# ---- accounts
def counts(c, ins):
    """one account too few or too many, or none; the surplus one is arbitrary"""
    f = fixture(c, ins)
    n = len(f.metas)
    c.note("%s with 0, %d, %d and %d accounts instead of %d" % (ins, n - 1, n + 1, 15, n))
    for m in sorted({0, n - 1, n + 1, 15} - {n}):
        f = fixture(c, ins)
        if m < n:
            f.metas = f.metas[:m]
            keep = {x[0] for x in f.metas}
            for x in list(f.w.acct):
                if x not in keep:
                    del f.w.acct[x]
        for k in range(n, m):
            f.add("extra%d" % k, data=[])
            f.metas.append(("extra%d" % k, f.flag("extra%d.signer" % k), f.flag("extra%d.writable" % k)))
        for t in f.go():
            no_effect(c, f, t, "a wrong number of accounts does nothing",
                      what="%s is executed with %d accounts instead of %d" % (ins, m, n))


# ---- arguments
def seeds_forms(n):
    """all (cell layout conditions) of a seeds list of exactly n bytes: list of seed lengths"""
    if n < 4:
        return []
    out = []

    def rec(left, acc):
        if left == 0:
            out.append(tuple(acc))
            return
        for l in range(0, left - 3):
            rec(left - 4 - l, acc + [l])
    rec(n - 4, [])
    return out


def le(raw, o, n):
    return bv(unpack(raw[o:o + n]), 8 * n)


def delegate_form(raw):
    """raw is an encoding of delegation arguments"""
    n, alts = len(raw), []
    for opt in (1, 33):
        body = n - 4 - opt
        if body < 4:
            continue
        for lens in seeds_forms(body):
            o, c = 8, [le(raw, 4, 4) == B(len(lens), 32)]
            for l in lens:
                c.append(le(raw, o, 4) == B(l, 32))
                o += 4 + l
            c.append(le(raw, o, 1) == B(1 if opt == 33 else 0, 8))
            alts.append(land(c))
    return lor(alts)


def form(ins, raw):
    """raw is an encoding of ins's arguments"""
    n = len(raw)
    if ins == "commit":
        return T(False) if n < 21 else land([ULE(le(raw, 16, 1), B(1, 8)), le(raw, 17, 4) == B(n - 21, 32)])
    if ins == "commit_from_buffer":
        return T(False) if n != 17 else ULE(le(raw, 16, 1), B(1, 8))
    if ins == "claim_validator_fees":
        return le(raw, 0, 1) == B(0, 8) if n == 1 else le(raw, 0, 1) == B(1, 8) if n == 9 else T(False)
    if ins == "approve":
        return ULE(le(raw, 0, 1), B(1, 8)) if n == 1 else T(False)
    if ins == "top_up":
        return T(n == 9)
    if ins == "close_escrow":
        return T(n >= 1)
    if ins == "delegate":
        return delegate_form(raw)
    if ins == "delegate_escrow":
        return delegate_form(raw[:-1]) if n else T(False)


def arguments(c, ins, lo, hi, want=False, seedless=False):
    """every argument string of the given lengths"""
    hit = False
    for n in range(lo, hi):
        f = fixture(c, ins)
        raw = f.w.sym_bytes("raw", n)
        f.data = tag(TAG[ins]) + raw
        if seedless:
            f.assume(le(raw, 4, 4) == B(0, 32))
        c.note("%s with every argument string of %d bytes%s" % (ins, n, " without seeds" if seedless else ""))
        for t in f.go():
            if t.result[0] == "ok":
                q, eff = effective(c, f, t)
                if eff is None:
                    continue
                hit = True
                c.claim(t, "only well-formed arguments are executed", form(ins, raw), eff,
                        what="%s is executed with malformed arguments" % ins)
    if want:
        c.expect("well-formed arguments work", hit)


QUICKFX = ("commit", "top_up", "approve", "claim_validator_fees", "delegate", "close_escrow", "finalize", "close_validator_vault",
           "undelegate")
for ins in TAG:
    q = "quick"
    each("C23", [dict(ins=ins)], q)(foreign)
    each("C23", [dict(ins=ins)], q)(counts)
    each("C23", [dict(ins=ins)], q if ins in ("top_up", "close_escrow") else "thorough")(truncated)
    each("C23", [dict(ins=ins)], q if ins in ("init_protocol_vault", "top_up", "close_validator_vault", "finalize") else "thorough")(tags)
each("C23", [dict(ins="top_up", lo=0, hi=12, want=True), dict(ins="approve", lo=0, hi=4, want=True),
             dict(ins="claim_validator_fees", lo=0, hi=11, want=True), dict(ins="close_escrow", lo=0, hi=3, want=True),
             dict(ins="commit_from_buffer", lo=15, hi=19, want=True), dict(ins="commit", lo=18, hi=22, want=True),
             dict(ins="delegate", lo=0, hi=11, want=True), dict(ins="delegate_escrow", lo=0, hi=11, want=True)])(arguments)
each("C23", [dict(ins="commit", lo=0, hi=18), dict(ins="commit", lo=22, hi=26, want=True), dict(ins="commit_from_buffer", lo=0, hi=15),
             dict(ins="commit_from_buffer", lo=19, hi=26), dict(ins="delegate", lo=11, hi=15, want=True),
             dict(ins="delegate_escrow", lo=11, hi=15, want=True), dict(ins="top_up", lo=12, hi=30),
             dict(ins="delegate", lo=40, hi=43, want=True, seedless=True)], "thorough")(arguments)
