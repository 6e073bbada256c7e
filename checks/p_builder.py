"""Client instruction builders against the program."""
from fx import *
from sym import unpack
from p_commit import each, nm
from p_escrow import escrow_of
from p_delegate import delegate_valid
from p_vaults import DLP_CELLS

D0 = {"record": b"delegation", "meta": b"delegation-metadata", "cstate": b"state-diff", "crec": b"commit-state-record",
      "ubuffer": b"undelegate-buffer"}


def build(c, kind, f, flat, addresses, signers, valid, what):
    """the built instruction is the fixture's, and succeeds on a valid ledger"""
    names = [m[0] for m in f.metas]
    slots = list(f.slot)
    want = f.data
    done = False
    f.assume(addresses)
    for t in c.kern(f.w, f.st, kind, flat):
        if t.result[0] != "ok":
            c.never(t, "building never fails")
            continue
        o = t.tags["out"]
        c.claim(t, "it is addressed to the program", same_bytes(o[:32], DLP_CELLS))
        n = o[32]
        c.claim(t, "it names the right number of accounts", T(n == len(slots)))
        if n != len(slots):
            continue
        metas = []
        for k, s in enumerate(slots):
            m = o[33 + 34 * k:67 + 34 * k]
            c.claim(t, "every account is the one the program expects there",
                    same_bytes(m[:32], kb(f.w.acct[f.slot[s]].key)), what="built %s: wrong account for %s" % (what, s))
            c.claim(t, "exactly the parties sign", eq(unpack(m[32:33]), 1 if s in signers else 0, 8),
                    what="built %s: signature of %s" % (what, s))
            metas.append((f.slot[s], unpack(m[32:33]), unpack(m[33:34])))
        data = o[33 + 34 * n:]
        c.claim(t, "operation and arguments are encoded as given", same_bytes(data, want),
                what="built %s: the program would act on other values" % what)
        for x in (x for f.st, f.metas in privileges(c, t, metas) for f.data in [data] for x in f.go()):
            if x.result[0] == "ok":
                done = True
                continue
            # the builder, not the ledger, gives the privileges
            f.signer = lambda n: T(True)
            f.writable = lambda n: T(n != "pconf" or kind == 108)
            c.never(x, "a built instruction succeeds on a valid ledger", valid(f, x),
                    what="built %s fails on a ledger satisfying the requirements (%s)" % (what, x.result))
    c.expect("a successful built instruction", done)


def privileges(c, t, metas):
    """-> [(state, metas)] with definite privileges"""
    out = [(t, [])]
    for n, *flags in metas:
        for v in flags:
            out = [(x, done + [y]) for st, done in out for x, y in ([(st, v)] if type(v) is int else c.e.values(st, v, 4))]
    return [(st, [(m[0], d[2 * k], d[2 * k + 1]) for k, m in enumerate(metas)]) for st, d in out]


def keys(f, *n):
    out = []
    for x in n:
        out += kb(f.w.acct[f.slot[x]].key)
    return out


def of(f, *names, d="delegated"):
    k = f.w.acct[f.slot[d]].key
    return land([eq(f.w.acct[f.slot[n]].key, f.pda(f.st, D0[n], k), 256) for n in names])


def is_(f, n, *seeds, prog=DLP):
    return eq(f.w.acct[f.slot[n]].key, f.pda(f.st, *seeds, prog=prog), 256)


def key(f, n):
    return f.w.acct[f.slot[n]].key


def flat_list(w, name, lens):
    c = [len(lens)]
    for k, l in enumerate(lens):
        c += list(u(l, 4)) + w.sym_bytes("%s%d" % (name, k), l)
    return c


def b_commit(c, buf=False, **k):
    f = commit(c, buf=buf, **k)
    f.assume(ULE(f.allow, B(1, 8)))
    r = Rec(f.w.view(f.st, "record"))
    x = keys(f, "validator", "delegated") + kb(r.owner) + (keys(f, "buffer") if buf else []) + \
        pack(f.slotv, 8) + pack(f.lam, 8) + pack(f.allow, 1)
    if not buf:
        x += list(u(len(f.content), 4)) + f.content
    build(c, 113 if buf else 101, f, x, land([
        of(f, "record", "meta", "cstate", "crec"), is_(f, "vvault", b"v-fees-vault", key(f, "validator")),
        is_(f, "pconf", b"p-conf", r.owner)]), ["validator"], commit_valid, "commit")


each("C22", [dict(), dict(buf=True), dict(nc=0, nd=0), dict(conf=1)])(b_commit)
each("C22", [dict(nc=100), dict(conf=2, buf=True), dict(seeds=(8, 32)), dict(nc=1)], "thorough")(b_commit)


def b_finalize(c, **k):
    f = finalize(c, **k)
    build(c, 102, f, keys(f, "validator", "delegated"), land([
        of(f, "record", "meta", "cstate", "crec"), is_(f, "vvault", b"v-fees-vault", key(f, "validator"))]),
        ["validator"], finalize_valid, "finalization")


each("C22", [dict()])(b_finalize)
each("C22", [dict(nd=0, nc=0), dict(seeds=(8, 32))], "thorough")(b_finalize)


def b_undelegate(c, **k):
    f = undelegate(c, **k)
    build(c, 103, f, keys(f, "validator", "delegated", "program", "rentpayer"), land([
        of(f, "record", "meta", "cstate", "crec", "ubuffer"), is_(f, "vvault", b"v-fees-vault", key(f, "validator")),
        is_(f, "fvault", b"fees-vault")] + ([Not(eq(key(f, "program"), DLP, 256))] if k.get("nd", 3) else [])),
        ["validator"], undelegate_valid, "undelegation")


each("C22", [dict(), dict(nd=0, alias={"rentpayer": "validator"})])(b_undelegate)
each("C22", [dict(nd=0), dict(nd=1, seeds=(8, 32)), dict(nd=0, alias={"program": "system"})], "thorough")(b_undelegate)


def b_delegate(c, **k):
    f = delegate(c, **k)
    alias = k.get("alias") or {}
    lens = k.get("seeds", (3,))
    x = keys(f, "payer", "delegated") + ([0] if alias else [1] + keys(f, "program")) + pack(f.freq, 4) + \
        flat_list(f.w, "arg.seed", lens) + (([1] + pack(f.auth, 32)) if k.get("with_validator", True) else [0])
    build(c, 100, f, x, land([of(f, "record", "meta"), is_(
        f, "dbuffer", b"buffer", key(f, "delegated"), prog=key(f, "program"))]), ["payer", "delegated"], delegate_valid, "delegation")


each("C22", [dict(), dict(seeds=(), with_validator=False), dict(nd=0, nb=0, seeds=(7, 2), alias={"program": "system"})])(b_delegate)
each("C22", [dict(seeds=(8, 32, 1)), dict(seeds=(1,) * 5, with_validator=False)], "thorough")(b_delegate)


def b_init_pv(c):
    f = init_pv(c)
    g = lambda f, n: f.v(f.pre, n)
    build(c, 105, f, keys(f, "payer"), is_(f, "fvault", b"fees-vault"), ["payer"], lambda f, t: land([
        owned(g(f, "payer"), SYSTEM), uninit(g(f, "fvault")), UGE(B(g(f, "payer").lamports), B(rent(8)))]), "protocol vault set-up")


def admin_at(f, slot="dlpdata", who="admin"):
    p = ProgData(f.pre[slot])
    return land([eq(p.variant, 3, 32), eq(p.has, 1, 8), eq(p.authority, f.v(f.pre, who).key, 256)])


def b_init_vv(c, **k):
    f = init_vv(c, **k)
    g = lambda f, n: f.v(f.pre, n)
    build(c, 106, f, keys(f, "payer", "admin", "identity"), land([
        is_(f, "vvault", b"v-fees-vault", key(f, "identity")), is_(f, "dlpdata", DLP_CELLS, prog=LOADER)]), ["payer", "admin"],
        lambda f, t: land([owned(g(f, "payer"), SYSTEM), uninit(g(f, "vvault")), admin_at(f),
                           UGE(B(g(f, "payer").lamports), B(rent(8)))]), "validator registration")


def b_close_vv(c, **k):
    f = close_vv(c, **k)
    build(c, 114, f, keys(f, "payer", "admin", "identity"), land([
        is_(f, "vvault", b"v-fees-vault", key(f, "identity")), is_(f, "dlpdata", DLP_CELLS, prog=LOADER)]), ["payer", "admin"],
        lambda f, t: land([owned(f.v(f.pre, "vvault")), admin_at(f)]), "validator removal")


def b_vclaim(c, amount=True):
    f = vclaim(c, amount=amount)
    L = lambda f: B(f.v(f.pre, "vvault").lamports)
    f.assume(UGE(B(f.w.vars["vvault.lamports"]), B(rent(8))))
    build(c, 107, f, keys(f, "validator") + ([1] + pack(f.amount, 8) if amount else [0]), land([
        is_(f, "vvault", b"v-fees-vault", key(f, "validator")), is_(f, "fvault", b"fees-vault")]), ["validator"],
        lambda f, t: land([owned(f.v(f.pre, "vvault")), owned(f.v(f.pre, "fvault"))] + (
            [ULE(B(f.amount), L(f) - B(rent(8)))] if amount else [])), "validator claim")


def b_pclaim(c):
    f = pclaim(c)
    build(c, 112, f, keys(f, "admin"), land([is_(f, "fvault", b"fees-vault"), is_(f, "dlpdata", DLP_CELLS, prog=LOADER)]),
          ["admin"], lambda f, t: land([owned(f.v(f.pre, "fvault")), admin_at(f),
                                        UGE(B(f.v(f.pre, "fvault").lamports), B(rent(8)))]), "protocol claim")


def b_approve(c, **k):
    f = whitelist(c, **k)
    n = k.get("n", 1)
    f.assume(ULE(f.insert, B(1, 8)))

    def valid(f, t):
        pc = f.v(f.pre, "pconf")
        size = 12 + 32 * ((n or 0) + 1)
        x = [owned(f.v(f.pre, "authority"), SYSTEM), UGE(B(f.v(f.pre, "authority").lamports), B(rent(size)))]
        dd = ProgData(f.pre["dlpdata"])
        x.append(Or(admin_at(f, who="authority"), land([
            eq(dd.variant, 3, 32), eq(dd.has, 1, 8), admin_at(f, "progdata", "authority")])))
        x += [uninit(pc)] if n is None else [owned(pc), eq(pc.b(0, 8), D_CONFIG, 64)]
        return land(x)
    build(c, 108, f, keys(f, "authority", "identity", "program") + pack(f.insert, 1), land([
        is_(f, "pconf", b"p-conf", key(f, "program")), is_(f, "dlpdata", DLP_CELLS, prog=LOADER),
        is_(f, "progdata", kb(key(f, "program")), prog=LOADER)]), ["authority"], valid, "list change")


def b_topup(c, amount=True, index=True, **k):
    f = topup(c, **k)
    x = keys(f, "payer", "pubkey")
    x += ([1] + pack(f.amount, 8)) if amount else [0]
    x += ([1] + pack(f.index, 1)) if index else [0]
    if not amount:
        f.assume(f.amount == B(10000))
    if not index:
        f.assume(f.index == B(0, 8))
    g = lambda f, n: f.v(f.pre, n)
    build(c, 109, f, x, is_(f, "escrow", b"balance", key(f, "pubkey"), pack(f.index, 1)), ["payer"], lambda f, t: land([
        owned(g(f, "payer"), SYSTEM), ULE(B(f.amount), B(1 << 56)),
        UGE(B(g(f, "payer").lamports), B(f.amount) + B(rent(0))),
        Or(uninit(g(f, "escrow")), owned(g(f, "escrow")))]), "top-up")


def b_deleg_esc(c, **k):
    f = deleg_escrow(c, **k)
    lens = k.get("seeds", (2,))
    x = keys(f, "payer", "pubkey") + pack(f.freq, 4) + flat_list(f.w, "arg.seed", lens) + \
        (([1] + pack(f.auth, 32)) if k.get("with_validator", True) else [0]) + pack(f.index, 1)
    g = lambda f, n: f.v(f.pre, n)
    mlen = 8 + 8 + 1 + 4 + (4 + 7) + (4 + 32) + (4 + 1) + 32
    e = key(f, "escrow")
    build(c, 110, f, x, land([
        is_(f, "escrow", b"balance", key(f, "pubkey"), pack(f.index, 1)), is_(f, "record", b"delegation", e),
        is_(f, "meta", b"delegation-metadata", e), is_(f, "dbuffer", b"buffer", e, prog=SYSTEM)]), ["payer", "pubkey"],
        lambda f, t: land([owned(g(f, "payer"), SYSTEM), Or(owned(g(f, "escrow")), owned(g(f, "escrow"), SYSTEM)),
                           uninit(g(f, "record")), uninit(g(f, "meta")),
                           UGE(B(g(f, "payer").lamports), B(rent(96) + rent(mlen)))]), "escrow delegation")


def b_close_esc(c, **k):
    f = close_escrow(c, **k)
    build(c, 111, f, keys(f, "payer") + pack(f.index, 1), is_(f, "escrow", b"balance", key(f, "payer"), pack(f.index, 1)),
          ["payer"], lambda f, t: land([owned(f.v(f.pre, "escrow"), SYSTEM)]), "escrow withdrawal")


each("C22", [dict()])(b_init_pv)
each("C22", [dict()])(b_init_vv)
each("C22", [dict()])(b_close_vv)
each("C22", [dict(), dict(amount=False)])(b_vclaim)
each("C22", [dict()])(b_pclaim)
each("C22", [dict(n=1), dict(n=None)])(b_approve)
each("C22", [dict(n=2)], "thorough")(b_approve)
each("C22", [dict(), dict(amount=False, index=False)])(b_topup)
each("C22", [dict(amount=False), dict(index=False), dict(alias={"pubkey": "payer"})], "thorough")(b_topup)
each("C22", [dict(), dict(seeds=(), with_validator=False)])(b_deleg_esc)
each("C22", [dict(alias={"pubkey": "payer"})], "thorough")(b_deleg_esc)
each("C22", [dict()])(b_close_esc)
