"""Fees vaults and approved lists."""
from fx import *
from p_commit import each, nm
from p_finalize import effective


def is_admin(f, t, slot="admin"):
    return upgrade_authority(f, t, "dlpdata", DLP_CELLS, f.v(f.pre, slot).key)


DLP_CELLS = list(DLP.to_bytes(32, "little"))
PA = {"admin": "payer"}


def created(f, t, q, slot, n, payer, key):
    """slot became a fresh rent-exempt n-byte account of the program at key, paid by payer"""
    g, h = f.v(f.pre, slot), f.v(q, slot)
    p, p2 = f.v(f.pre, payer), f.v(q, payer)
    post = mx(B(g.lamports), B(rent(n)))
    return [("the vault did not exist", uninit(g)), ("the vault is at its address", eq(g.key, key, 256)),
            ("the vault is created empty and rent exempt", land([
                owned(h), T(h.len == n), same_bytes(h.cells, [0] * n), B(h.lamports) == post])),
            ("only the payer pays, exactly the missing rent", And(
                B(p2.lamports) == B(p.lamports) - (post - B(g.lamports)), ULE(B(p2.lamports), B(p.lamports)),
                f.signer(payer))),
            ("nothing else changes", And(f.unchanged(q, but=(payer, slot)), eq(p.owner, p2.owner, 256), T(p2.len == p.len)))]


# ---- C18
def inits_validator(c, **k):
    f = init_vv(c, **k)
    seen = False
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        key = f.pda(t, b"v-fees-vault", g("identity").key)
        adm = is_admin(f, t)
        if t.result[0] != "ok":
            if not k.get("short") and not k.get("vlen") and "vvault" not in (k.get("alias") or {}):
                c.never(t, "the admin can register a validator", land([
                    f.signer("payer"), f.writable("payer"), owned(g("payer"), SYSTEM), f.signer("admin"), adm,
                    f.writable("vvault"), uninit(g("vvault")), eq(g("vvault").key, key, 256),
                    UGE(B(g("payer").lamports), B(rent(8)))]),
                    what="registering a validator fails although every requirement is met (%s)" % (t.result,))
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        c.claim(t, "the upgrade authority signed", And(f.signer("admin"), adm), eff)
        for label, x in created(f, t, q, "vvault", 8, "payer", key):
            c.claim(t, label, x, eff)
    if not k.get("short") and not k.get("vlen"):
        c.expect("a registration", seen)


each("C18", [dict(), dict(alias=PA), dict(vlen=8), dict(short=45), dict(alias={"identity": "admin"})])(inits_validator)
each("C18", [dict(short=13), dict(vlen=1), dict(alias={"identity": "payer"}),
             dict(alias={"identity": "payer", "admin": "payer"})], "thorough")(inits_validator)


def closes_validator(c, **k):
    f = close_vv(c, **k)
    seen = False
    al = k.get("alias") or {}
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        key = f.pda(t, b"v-fees-vault", g("identity").key)
        adm = is_admin(f, t)
        if t.result[0] != "ok":
            if not k.get("short") and "vvault" not in al:
                c.never(t, "the admin can remove a validator", land([
                    f.signer("payer"), f.signer("admin"), adm, f.writable("vvault"), owned(g("vvault")),
                    f.writable("identity"), eq(g("vvault").key, key, 256)]),
                    what="removing a validator fails although every requirement is met (%s)" % (t.result,))
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        h = lambda n: f.v(q, n)
        c.claim(t, "the upgrade authority signed", And(f.signer("admin"), adm), eff)
        c.claim(t, "it is that validator's vault", And(eq(g("vvault").key, key, 256), owned(g("vvault"))), eff)
        c.claim(t, "the vault is gone", f.closed(h("vvault")), eff)
        c.claim(t, "the whole vault goes to the validator",
                B(h("identity").lamports) == B(g("identity").lamports) + B(g("vvault").lamports), eff)
        c.claim(t, "nothing else changes", And(f.unchanged(q, but=("identity", "vvault")), eq(
            h("identity").owner, g("identity").owner, 256), same_bytes(h("identity").cells, g("identity").cells)), eff)
    if not k.get("short") and "vvault" not in al:
        c.expect("a removal", seen)


each("C18", [dict(), dict(alias=PA), dict(short=44), dict(vlen=0), dict(alias={"identity": "admin"})])(closes_validator)
each("C18", [dict(vlen=20), dict(alias={"identity": "payer"}), dict(alias={"vvault": "payer"}), dict(alias={"vvault": "admin"}),
             dict(alias={"identity": "payer", "admin": "payer"})], "thorough")(closes_validator)


def inits_protocol(c, **k):
    f = init_pv(c, **k)
    seen = False
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        key = f.pda(t, b"fees-vault")
        if t.result[0] != "ok":
            if not k.get("vlen") and not k.get("alias"):
                c.never(t, "the protocol vault can be initialised", land([
                    f.signer("payer"), f.writable("payer"), owned(g("payer"), SYSTEM), f.writable("fvault"),
                    uninit(g("fvault")), eq(g("fvault").key, key, 256), UGE(B(g("payer").lamports), B(rent(8)))]),
                    what="initialising the protocol vault fails although every requirement is met (%s)" % (t.result,))
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        for label, x in created(f, t, q, "fvault", 8, "payer", key):
            c.claim(t, label, x, eff)
    if not k.get("vlen") and not k.get("alias"):
        c.expect("an initialisation", seen)


each("C18", [dict(), dict(vlen=8)])(inits_protocol)
each("C18", [dict(trailing=2)], "thorough")(inits_protocol)


# ---- C19
def claims_validator(c, alive=True, **k):
    f = vclaim(c, **k)
    w = f.w
    al = k.get("alias") or {}
    seen = False
    v0 = B(w.vars["vvault.lamports"]) if "vvault" not in al else None
    if alive and v0 is not None:
        # vaults are created rent exempt, and nothing leaves them with less
        f.assume(UGE(v0, B(rent(8))))
        c.note("validator claim: the vault is rent exempt before")
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        L = lambda n: B(g(n).lamports)
        key = f.pda(t, b"v-fees-vault", g("validator").key)
        avail = L("vvault") - B(rent(8))
        amt = B(f.amount) if f.amount is not None else avail
        if t.result[0] != "ok":
            if not al:
                c.never(t, "a valid claim succeeds", land([
                    f.signer("validator"), f.writable("validator"), f.writable("fvault"), f.writable("vvault"),
                    owned(g("fvault")), owned(g("vvault")), eq(g("vvault").key, key, 256),
                    eq(g("fvault").key, f.pda(t, b"fees-vault"), 256), ULE(amt, avail)]),
                    what="a claim satisfying every requirement fails (%s)" % (t.result,))
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        h = lambda n: f.v(q, n)
        M = lambda n: B(h(n).lamports)
        c.claim(t, "the vault's validator signed", land([
            f.signer("validator"), eq(g("vvault").key, key, 256), owned(g("vvault"))]), eff)
        c.claim(t, "the fee goes to the protocol vault", land([
            eq(g("fvault").key, f.pda(t, b"fees-vault"), 256), owned(g("fvault"))]), eff)
        cut = z3.UDiv(amt * 10, B(100))
        c.claim(t, "no more is claimed than leaves the vault alive", And(ULE(amt, avail), UGE(M("vvault"), B(rent(8)))), eff)
        c.claim(t, "the vault pays exactly the claim", M("vvault") == L("vvault") - amt, eff)
        c.claim(t, "a tenth goes to the protocol", M("fvault") == L("fvault") + cut, eff)
        c.claim(t, "the rest goes to the validator", M("validator") == L("validator") + (amt - cut), eff)
        c.claim(t, "only balances change", land([
            same_bytes(h(n).cells, g(n).cells) for n in f.pre] + [eq(h(n).owner, g(n).owner, 256) for n in f.pre]), eff)
    if not al:
        c.expect("a claim", seen)


each("C19", [dict(), dict(amount=False), dict(vlen=0)])(claims_validator)
each("C19", [dict(alias={"vvault": "fvault"}), dict(vlen=3, amount=False)], "thorough")(claims_validator)


def claims_protocol(c, **k):
    f = pclaim(c, **k)
    al = k.get("alias") or {}
    seen = False
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        L = lambda n: B(g(n).lamports)
        adm = is_admin(f, t)
        key = f.pda(t, b"fees-vault")
        if t.result[0] != "ok":
            if not al and not k.get("short"):
                c.never(t, "the admin can claim the protocol's fees", land([
                    f.signer("admin"), f.writable("admin"), f.writable("fvault"), adm, owned(g("fvault")),
                    eq(g("fvault").key, key, 256), UGE(L("fvault"), B(rent(8)))]),
                    what="a claim satisfying every requirement fails (%s)" % (t.result,))
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        h = lambda n: f.v(q, n)
        M = lambda n: B(h(n).lamports)
        c.claim(t, "the upgrade authority signed", And(f.signer("admin"), adm), eff)
        c.claim(t, "it is the protocol vault", And(eq(g("fvault").key, key, 256), owned(g("fvault"))), eff)
        c.claim(t, "exactly what exceeds rent exemption is paid", And(
            M("fvault") == B(rent(8)), UGE(L("fvault"), B(rent(8))),
            M("admin") == L("admin") + (L("fvault") - B(rent(8)))), eff)
        c.claim(t, "only balances change", land([
            same_bytes(h(n).cells, g(n).cells) for n in f.pre] + [eq(h(n).owner, g(n).owner, 256) for n in f.pre] + [
            M("dlpdata") == L("dlpdata")]), eff)
    if not al and not k.get("short"):
        c.expect("a claim", seen)


each("C19", [dict(), dict(short=44)])(claims_protocol)
each("C19", [dict(vlen=0), dict(alias={"fvault": "admin"}), dict(short=0)], "thorough")(claims_protocol)


# ---- C20
def entries(v):
    """the validators an approved list holds, or None"""
    if v.len < 12 or (v.len - 12) % 32:
        return None
    return [v.b(12 + 32 * k, 32) for k in range((v.len - 12) // 32)]


def list_change_valid(f, t, adm, upg, old):
    """what a change of an approved list needs"""
    g = lambda n: f.v(f.pre, n)
    pc = g("pconf")
    dd = ProgData(g("dlpdata"))
    readable = land([eq(g("dlpdata").key, f.pda(t, DLP_CELLS, prog=LOADER), 256),
                     eq(dd.variant, 3, 32), eq(dd.has, 1, 8)])
    return land([
        f.signer("authority"), f.writable("authority"), owned(g("authority"), SYSTEM), f.writable("pconf"),
        eq(pc.key, f.pda(t, b"p-conf", g("program").key), 256), ULE(B(f.insert, 8), B(1, 8)),
        UGE(B(g("authority").lamports), B(rent(12 + 32 * (len(old) + 1)))), Or(adm, And(upg, readable))] + (
        [owned(pc, SYSTEM)] if pc.len == 0 else
        [owned(pc), eq(pc.b(0, 8), D_CONFIG, 64), eq(pc.b(8, 4), len(old), 32)]))


def approves(c, ready=False, **k):
    f = whitelist(c, **k)
    al = k.get("alias") or {}
    plain = not any(x in k for x in ("short", "pshort", "trailing", "ordered")) and "pconf" not in al
    seen = False
    if "pconf" not in al:
        # nobody else can be made the owner of an address of the program
        o = f.w.vars["pconf.owner"]
        f.assume(Or(eq(o, SYSTEM, 256), eq(o, DLP, 256)))
        c.note("approved list: its address is owned by the system program or the program")
    if ready:
        f.before()
        pc = f.v(f.pre, "pconf")
        f.assume(list_change_valid(f, f.st, is_admin(f, f.st, "authority"), T(False), entries(pc)),
                 eq(pc.lamports, rent(pc.len), 64))
        c.note("with %d entries: changed by the admin, all else valid, the list just rent exempt" % k["n"])
    for t in f.go():
        g = lambda n: f.v(f.pre, n)
        L = lambda n: B(g(n).lamports)
        who = g("authority").key
        key = f.pda(t, b"p-conf", g("program").key)
        adm = is_admin(f, t, "authority")
        upg = upgrade_authority(f, t, "progdata", kb(g("program").key), who)
        pc = g("pconf")
        old = [] if pc.len == 0 else entries(pc)
        if t.result[0] != "ok":
            if plain:
                c.never(t, "an authority can change its list", list_change_valid(f, t, adm, upg, old),
                        what="changing an approved list fails although every requirement is met (%s)" % (t.result,))
            continue
        q = f.post(t)
        h = lambda n: f.v(q, n)
        M = lambda n: B(h(n).lamports)
        eff = Not(f.unchanged(q))
        pd = h("pconf")
        new = entries(pd)
        who_ok = And(f.signer("authority"), Or(adm, upg))
        c.claim(t, "an upgrade authority signed", who_ok, eff)
        c.claim(t, "it is that program's list", eq(pc.key, key, 256), eff)
        if pc.len:
            c.claim(t, "an existing list is the program's own", Or(owned(pc, SYSTEM), eq(pc.b(0, 8), D_CONFIG, 64) if pc.len >= 8 else T(False)), eff)
        if new is None or old is None:
            c.never(t, "the list stays readable")
            continue
        seen = True
        x = g("identity").key
        ins = eq(f.insert, 1, 8)
        isin = lambda y, s: lor([eq(y, z, 256) for z in s])
        c.claim(t, "the list stays readable and the program's", land([
            owned(pd), eq(pd.b(0, 8), D_CONFIG, 64), eq(pd.b(8, 4), len(new), 32)]), eff)
        c.claim(t, "adding adds", isin(x, new), ins)
        c.claim(t, "removing removes", Not(isin(x, new)), Not(ins))
        c.claim(t, "every other entry stays", land([Or(isin(y, new), And(Not(ins), eq(y, x, 256))) for y in old]))
        c.claim(t, "nobody else is added", land([Or(isin(y, old), And(ins, eq(y, x, 256))) for y in new]))
        ent = [bigend(y) for y in new]
        c.claim(t, "entries are unique and in order", land([ULT(a, b) for a, b in zip(ent, ent[1:])]))
        c.claim(t, "the list is rent exempt and loses nothing", M("pconf") == mx(L("pconf"), B(rent(pd.len))))
        if not (set(al) & {"pconf"}):
            c.claim(t, "only the authority pays, exactly the missing rent", And(
                M("authority") == L("authority") - (M("pconf") - L("pconf")), ULE(M("authority"), L("authority"))))
            c.claim(t, "nothing else changes", And(f.unchanged(q, but=("authority", "pconf")), eq(
                h("authority").owner, g("authority").owner, 256)))
    if plain:
        c.expect("a changed list", seen)


each("C20", [dict(n=None), dict(n=0), dict(n=1), dict(n=2), dict(n=1, alias={"identity": "authority"})])(approves)
each("C20", [dict(n=11, ready=True), dict(n=12, ready=True)], "soft")(approves)
each("C20", [dict(n=6), dict(n=24, ready=True)], "thorough")(approves)
each("C20", [dict(n=3), dict(n=4), dict(n=2, alias={"progdata": "dlpdata", "program": "dlpdata"})][:2] + [
    dict(n=1, short=44), dict(n=1, pshort=44), dict(n=1, short=13, pshort=45), dict(n=2, ordered=False),
    dict(n=1, alias={"pconf": "authority"}), dict(n=1, alias={"identity": "program"}),
    dict(n=1, alias={"progdata": "dlpdata"}), dict(n=None, alias={"progdata": "dlpdata"})], "thorough")(approves)
