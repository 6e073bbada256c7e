"""Ledger fixtures: one function per instruction, with every account arbitrary
(address, owner, balance, content, privileges) unless said otherwise; and the
readers that say what the stored bytes mean."""
import z3
from sym import is_c, bv, lit, pack, unpack, as_bool
from world import SYSTEM, DLP, LOADER, NATIVE, World, eq, same_bytes, rent, u, tag
from core import scenario

And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If
ULE, ULT, UGE, UGT = z3.ULE, z3.ULT, z3.UGE, z3.UGT


def B(v, n=64):
    return bv(v, n)


def T(b):
    return z3.BoolVal(bool(b))


def land(xs):
    xs = [as_bool(x) if not isinstance(x, bool) else T(x) for x in xs]
    return z3.And(xs) if xs else T(True)


def lor(xs):
    xs = [as_bool(x) if not isinstance(x, bool) else T(x) for x in xs]
    return z3.Or(xs) if xs else T(False)


# ---- stored layouts
class Rec:
    """delegation record"""
    SIZE = 96

    def __init__(s, v):
        s.ok = v.len == 96
        if s.ok:
            s.disc, s.authority, s.owner = v.b(0, 8), v.b(8, 32), v.b(40, 32)
            s.slot, s.lamports, s.freq = v.b(72, 8), v.b(80, 8), v.b(88, 8)


class CRec:
    """commit record"""
    SIZE = 88

    def __init__(s, v):
        s.ok = v.len == 88
        if s.ok:
            s.disc, s.identity, s.account = v.b(0, 8), v.b(8, 32), v.b(40, 32)
            s.slot, s.lamports = v.b(72, 8), v.b(80, 8)


class Meta:
    """delegation metadata, with concrete seed lengths"""

    def __init__(s, v, lens):
        n = 8 + 8 + 1 + 4 + sum(4 + l for l in lens) + 32
        s.ok = v.len == n
        if not s.ok:
            return
        s.disc, s.last, s.und = v.b(0, 8), v.b(8, 8), v.b(16, 1)
        s.seeds_cells = v.cells[17:n - 32]
        s.payer = v.b(n - 32, 32)


D_RECORD, D_COMMIT, D_META, D_CONFIG = 100, 101, 102, 103


def seeds_cells(w, name, lens):
    c = list(u(len(lens), 4))
    for k, l in enumerate(lens):
        c += list(u(l, 4)) + w.sym_bytes("%s%d" % (name, k), l)
    return c


def meta_cells(w, name, lens):
    return w.sym_bytes(name + ".disc", 8) + w.sym_bytes(name + ".last", 8) + w.sym_bytes(name + ".und", 1) + \
        seeds_cells(w, name + ".seed", lens) + w.sym_bytes(name + ".payer", 32)


def rec_cells(w, name):
    return (w.sym_bytes(name + ".disc", 8) + w.sym_bytes(name + ".authority", 32) + w.sym_bytes(name + ".recowner", 32) +
            w.sym_bytes(name + ".slot", 8) + w.sym_bytes(name + ".reclam", 8) + w.sym_bytes(name + ".freq", 8))


def crec_cells(w, name):
    return (w.sym_bytes(name + ".disc", 8) + w.sym_bytes(name + ".identity", 32) + w.sym_bytes(name + ".account", 32) +
            w.sym_bytes(name + ".slot", 8) + w.sym_bytes(name + ".clam", 8))


def config_cells(w, name, n):
    c = w.sym_bytes(name + ".disc", 8) + u(n, 4)
    for k in range(n):
        c = list(c) + w.sym_bytes("%s.entry%d" % (name, k), 32)
    return c


def kb(v):
    """an address as seed bytes"""
    return pack(v, 32)


class Fx:
    def __init__(s, c):
        s.c = c
        s.w, s.st = c.world()
        s.metas = []
        s.mode = 0

    def add(s, name, **k):
        return s.w.add(s.st, name, **k)

    def system(s):
        s.add("system", key=SYSTEM, owner=NATIVE, lamports=1, executable=1)

    def flag(s, name):
        v = s.w.var(name, 8)
        s.st.pc.append(z3.ULE(v, z3.BitVecVal(1, 8)))
        return v

    def assume(s, *cs):
        for c in cs:
            c = lit(as_bool(c) if not isinstance(c, bool) else T(c))
            if is_c(c):
                assert c, "assumption is false"
                continue
            if z3.is_and(c):
                s.assume(*c.children())
                continue
            s.st.pc.append(c)
            s.st.model = None

    def slots(s, names, alias=None, fixed=None):
        """metas in order; alias: {slot: slot it is the same account as};
        fixed: {slot: (signer, writable)}, others arbitrary"""
        alias, fixed = alias or {}, {**(s.c.fixed or {}), **(fixed or {})}
        s.slot = {}
        for n in names:
            a = alias.get(n, n)
            s.slot[n] = a
            if n in fixed:
                sg, wr = fixed[n]
                sg = s.flag(a + ".signer") if sg is None else sg
                wr = s.flag(a + ".writable") if wr is None else wr
            elif n in ("system", "dlp"):
                sg, wr = 0, 0
            elif a in [m[0] for m in s.metas]:
                sg, wr = 0, 0          # same account: flags are shared
            else:
                sg, wr = s.flag(a + ".signer"), s.flag(a + ".writable")
            s.metas.append((a, sg, wr))
        return s

    def drop_aliased(s, alias):
        for a in (alias or {}):
            if a in s.w.acct:
                del s.w.acct[a]

    def go(s, mode=0, validate=True, pid=None):
        """all outcomes"""
        s.mode = mode
        s.before()
        for t in s.c.run(s.w, s.st, s.metas, s.data, mode, pid=pid, validate=validate):
            yield t

    def before(s):
        """the initial ledger, so that conditions on it can be assumed"""
        if hasattr(s, "pre"):
            return
        s.w.distinct(s.st)
        s.pre = s.w.snap(s.st)
        s.flags = {}
        for n, sg, wr in s.metas:
            o = s.flags.get(n, (0, 0))
            s.flags[n] = (o[0] | sg, o[1] | wr)

    def v(s, snap, slot):
        return snap[s.slot.get(slot, slot)]

    def signer0(s, slot):
        """before go()"""
        return lor([as_bool(bv(m[1], 8) != 0) for m in s.metas if m[0] == s.slot.get(slot, slot)])

    def writable0(s, slot):
        """before go()"""
        w = lor([as_bool(bv(m[2], 8) != 0) for m in s.metas if m[0] == s.slot.get(slot, slot)])
        return w

    def signer(s, slot):
        f = s.flags[s.slot.get(slot, slot)][0]
        return T(f != 0) if is_c(f) else f != 0

    def writable(s, slot):
        f = s.flags[s.slot.get(slot, slot)][1]
        return T(f != 0) if is_c(f) else f != 0

    def post(s, t):
        return s.w.snap(t)

    def pda(s, t, *seeds, prog=DLP):
        return s.w.pda(t, [x if isinstance(x, (bytes, list)) else kb(x) for x in seeds], prog)[0]

    # what a comparison of two moments says
    def same(s, a, b):
        """account unchanged"""
        return land([eq(a.owner, b.owner, 256), eq(a.lamports, b.lamports, 64), T(a.len == b.len),
                     same_bytes(a.cells, b.cells)])

    def unchanged(s, post, *names, but=()):
        """the named accounts (default: all) are as before"""
        ns = names or [n for n in s.pre if n not in [s.slot.get(x, x) for x in but]]
        return land([s.same(s.pre[n], post[n]) for n in ns])

    def closed(s, v):
        return land([eq(v.owner, SYSTEM, 256), eq(v.lamports, 0, 64), T(v.len == 0)])


def uninit(v):
    return land([eq(v.owner, SYSTEM, 256), T(v.len == 0)])


def owned(v, o=DLP):
    return eq(v.owner, o, 256)


# ---------------------------------------------------------------- commit
COMMIT = ["validator", "delegated", "cstate", "crec", "record", "meta", "vvault", "pconf", "system"]
COMMIT_BUF = ["validator", "delegated", "cstate", "crec", "record", "meta", "buffer", "vvault", "pconf", "system"]


def commit(c, buf=False, nd=4, nc=5, seeds=(3,), conf=None, alias=None, cs_len=0, cr_len=0,
           rec_len=None, meta_len=None, trailing=0, honest=False, ordered=False, ready=False):
    f = Fx(c)
    w = f.w
    f.lens = seeds
    f.add("validator", data=[])
    f.add("delegated", data=w.sym_bytes("delegated.data", nd))
    f.add("cstate", data=w.sym_bytes("cstate.data", cs_len))
    f.add("crec", data=w.sym_bytes("crec.data", cr_len))
    f.add("record", data=rec_cells(w, "record") if rec_len is None else w.sym_bytes("record.raw", rec_len))
    f.add("meta", data=meta_cells(w, "meta", seeds) if meta_len is None else w.sym_bytes("meta.raw", meta_len))
    if buf:
        f.add("buffer", data=w.sym_bytes("buffer.data", nc))
    f.add("vvault", data=w.sym_bytes("vvault.data", 8))
    f.add("pconf", data=config_cells(w, "pconf", conf) if conf is not None else [])
    f.system()
    f.drop_aliased(alias)
    f.slots(COMMIT_BUF if buf else COMMIT, alias)
    f.slotv, f.lam, f.allow = w.var("arg.slot", 64), w.var("arg.lamports", 64), w.var("arg.allow", 8)
    f.content = w.sym_bytes("buffer.data" if buf else "arg.data", nc)
    f.data = tag(13 if buf else 1) + pack(f.slotv, 8) + pack(f.lam, 8) + pack(f.allow, 1)
    if not buf:
        f.data += list(u(nc, 4)) + f.content
    f.data += w.sym_bytes("arg.trailing", trailing)
    f.buf = buf
    if ordered:
        ent = [bigend(w.vars["pconf.entry%d" % k]) for k in range(conf)]
        f.assume(*[ULT(a, b) for a, b in zip(ent, ent[1:])])
        c.e.lia.keys = True
    if ready:
        f.before()
        f.assume(commit_valid(f, f.st, approved=None), eq(f.v(f.pre, "cstate").lamports, 0, 64),
                 eq(f.v(f.pre, "crec").lamports, 0, 64), eq(f.lam, Rec(f.v(f.pre, "record")).lamports, 64))
        if conf:
            f.assume(eq(f.v(f.pre, "pconf").b(8, 4), conf, 32))
    c.note("commit%s: %s, delegated data %d B, committed data %d B, seeds %s, approved list %s%s%s" % (
        ", all else valid, balance kept, no gifts" if ready else "",
        "from buffer" if buf else "direct", nd, nc, list(seeds), "absent/empty" if conf is None else "%d entries" % conf,
        " in order" if ordered else "", ", aliases %s" % alias if alias else ""))
    return f


def commit_valid(f, t, approved=True, fresh_slot=True, undelegatable=False):
    """preconditions under which a commit is to be accepted"""
    p, w = f.pre, f.w
    g = lambda n: f.v(p, n)
    d = g("delegated").key
    r, m = Rec(g("record")), Meta(g("meta"), f.lens)
    need = If(UGT(B(f.lam), B(r.lamports)), B(f.lam) - B(r.lamports), B(0))
    nc = len(f.content)
    c = [f.signer("validator"), f.writable("validator"), owned(g("validator"), SYSTEM),
         owned(g("delegated")), owned(g("record")), owned(g("meta")), owned(g("vvault")),
         uninit(g("cstate")), uninit(g("crec")), f.writable("cstate"), f.writable("crec"), f.writable("meta"),
         eq(g("record").key, f.pda(t, b"delegation", d), 256),
         eq(g("meta").key, f.pda(t, b"delegation-metadata", d), 256),
         eq(g("vvault").key, f.pda(t, b"v-fees-vault", g("validator").key), 256),
         eq(g("cstate").key, f.pda(t, b"state-diff", d), 256),
         eq(g("crec").key, f.pda(t, b"commit-state-record", d), 256),
         eq(g("pconf").key, f.pda(t, b"p-conf", r.owner), 256), Not(f.writable("pconf")),
         eq(r.disc, D_RECORD, 64), eq(m.disc, D_META, 64), ULE(B(m.und, 8), B(1, 8)), ULE(B(f.allow, 8), B(1, 8)),
         UGE(B(g("delegated").lamports), B(r.lamports)),
         UGE(B(f.slotv), B(m.last)) if fresh_slot else ULT(B(f.slotv), B(m.last)),
         # enough to pay deposit and rent
         UGE(B(g("validator").lamports), need + B(rent(nc) + rent(88))), ULE(need, B(1 << 56)),
         ]
    if fresh_slot and undelegatable is not None:
        c.append(eq(m.und, 1 if undelegatable else 0, 8))
    pc = g("pconf")
    if pc.len == 0:
        c.append(owned(pc, SYSTEM))
    else:
        n = (pc.len - 12) // 32
        c += [owned(pc), eq(pc.b(0, 8), D_CONFIG, 64)]
        ent = [pc.b(12 + 32 * k, 32) for k in range(n)]
        mem = lor([eq(x, g("validator").key, 256) for x in ent])
        c += [] if approved is None else [mem if approved else Not(mem)]
    return land(c)


# ---------------------------------------------------------------- finalize
FINALIZE = ["validator", "delegated", "cstate", "crec", "record", "meta", "vvault", "system"]


def finalize(c, nd=4, nc=5, seeds=(3,), alias=None, cr_len=88, rec_len=None, trailing=0):
    f = Fx(c)
    w = f.w
    f.lens = seeds
    f.add("validator", data=[])
    f.add("delegated", data=w.sym_bytes("delegated.data", nd))
    f.add("cstate", data=w.sym_bytes("cstate.data", nc))
    f.add("crec", data=crec_cells(w, "crec") if cr_len == 88 else w.sym_bytes("crec.data", cr_len))
    f.add("record", data=rec_cells(w, "record") if rec_len is None else w.sym_bytes("record.raw", rec_len))
    f.add("meta", data=meta_cells(w, "meta", seeds))
    f.add("vvault", data=w.sym_bytes("vvault.data", 8))
    f.system()
    f.drop_aliased(alias)
    f.slots(FINALIZE, alias)
    f.data = tag(2) + w.sym_bytes("arg.trailing", trailing)
    c.note("finalize: delegated data %d B, pending data %d B, seeds %s, pending record %d B%s" % (
        nd, nc, list(seeds), cr_len, ", aliases %s" % alias if alias else ""))
    return f


def finalize_valid(f, t):
    g = lambda n: f.v(f.pre, n)
    d = g("delegated").key
    r, m, k = Rec(g("record")), Meta(g("meta"), f.lens), CRec(g("crec"))
    dep = If(UGT(B(k.lamports), B(r.lamports)), B(k.lamports) - B(r.lamports), B(0))
    return land([
        f.signer("validator"), f.writable("validator"),
        owned(g("delegated")), owned(g("record")), owned(g("meta")), owned(g("vvault")), owned(g("cstate")),
        owned(g("crec")),
        f.writable("delegated"), f.writable("record"), f.writable("meta"), f.writable("vvault"),
        f.writable("cstate"), f.writable("crec"),
        eq(g("record").key, f.pda(t, b"delegation", d), 256),
        eq(g("meta").key, f.pda(t, b"delegation-metadata", d), 256),
        eq(g("vvault").key, f.pda(t, b"v-fees-vault", g("validator").key), 256),
        eq(g("cstate").key, f.pda(t, b"state-diff", d), 256),
        eq(g("crec").key, f.pda(t, b"commit-state-record", d), 256),
        eq(r.disc, D_RECORD, 64), eq(m.disc, D_META, 64), eq(k.disc, D_COMMIT, 64), ULE(B(m.und, 8), B(1, 8)),
        eq(k.account, d, 256), eq(k.identity, g("validator").key, 256),
        UGE(B(g("delegated").lamports), B(r.lamports)), UGE(B(g("cstate").lamports), dep)])


# ---------------------------------------------------------------- undelegate
UNDELEGATE = ["validator", "delegated", "program", "ubuffer", "cstate", "crec", "record", "meta", "rentpayer",
              "fvault", "vvault", "system"]


def undelegate(c, nd=3, seeds=(3,), alias=None, rec_len=None, cs_len=0, cr_len=0, ub_len=0, fixed=None):
    f = Fx(c)
    w = f.w
    f.lens = seeds
    f.add("validator", data=[])
    f.add("delegated", data=w.sym_bytes("delegated.data", nd))
    f.add("program", data=[], executable=1)
    f.add("ubuffer", data=w.sym_bytes("ubuffer.data", ub_len))
    f.add("cstate", data=w.sym_bytes("cstate.data", cs_len))
    f.add("crec", data=w.sym_bytes("crec.data", cr_len))
    f.add("record", data=rec_cells(w, "record") if rec_len is None else w.sym_bytes("record.raw", rec_len))
    f.add("meta", data=meta_cells(w, "meta", seeds))
    f.add("rentpayer", data=[])
    f.add("fvault", data=w.sym_bytes("fvault.data", 8))
    f.add("vvault", data=w.sym_bytes("vvault.data", 8))
    f.system()
    f.drop_aliased(alias)
    f.slots(UNDELEGATE, alias, fixed)
    f.data = tag(3)
    c.note("undelegate: delegated data %d B, seeds %s%s" % (
        nd, list(seeds), ", aliases %s" % alias if alias else ""))
    return f


def undelegate_valid(f, t):
    g = lambda n: f.v(f.pre, n)
    d = g("delegated").key
    r, m = Rec(g("record")), Meta(g("meta"), f.lens)
    nd = g("delegated").len
    c = [f.signer("validator"), f.writable("validator"), owned(g("validator"), SYSTEM),
         owned(g("delegated")), owned(g("record")), owned(g("meta")), owned(g("vvault")), owned(g("fvault")),
         uninit(g("cstate")), uninit(g("crec")), uninit(g("ubuffer")),
         f.writable("delegated"), f.writable("record"), f.writable("meta"), f.writable("vvault"),
         f.writable("fvault"), f.writable("ubuffer"), f.writable("rentpayer"),
         eq(g("record").key, f.pda(t, b"delegation", d), 256),
         eq(g("meta").key, f.pda(t, b"delegation-metadata", d), 256),
         eq(g("vvault").key, f.pda(t, b"v-fees-vault", g("validator").key), 256),
         eq(g("fvault").key, f.pda(t, b"fees-vault"), 256),
         eq(g("cstate").key, f.pda(t, b"state-diff", d), 256),
         eq(g("crec").key, f.pda(t, b"commit-state-record", d), 256),
         eq(g("ubuffer").key, f.pda(t, b"undelegate-buffer", d), 256),
         eq(r.disc, D_RECORD, 64), eq(m.disc, D_META, 64), eq(m.und, 1, 8),
         eq(r.owner, g("program").key, 256), eq(m.payer, g("rentpayer").key, 256),
         ]
    if nd:
        c += [UGE(B(g("validator").lamports), B(rent(nd))), UGE(B(g("delegated").lamports), B(rent(nd)))]
    return land(c)


# ---------------------------------------------------------------- delegate
DELEGATE = ["payer", "delegated", "program", "dbuffer", "record", "meta", "system"]


def borsh_seeds(w, name, lens):
    return seeds_cells(w, name, lens)


def delegate(c, nd=4, nb=None, seeds=(3,), with_validator=True, alias=None, rec_len=0, meta_len=0, trailing=0):
    f = Fx(c)
    w = f.w
    f.lens = seeds
    nb = nd if nb is None else nb
    f.add("payer", data=[])
    f.add("delegated", data=w.sym_bytes("delegated.data", nd))
    f.add("program", data=[], executable=1)
    f.add("dbuffer", data=w.sym_bytes("dbuffer.data", nb))
    f.add("record", data=w.sym_bytes("record.data", rec_len))
    f.add("meta", data=w.sym_bytes("meta.data", meta_len))
    f.system()
    f.drop_aliased(alias)
    f.slots(DELEGATE, alias)
    f.freq = w.var("arg.freq", 32)
    f.seeds = [w.sym_bytes("arg.seed%d" % k, l) for k, l in enumerate(seeds)]
    f.data = tag(0) + pack(f.freq, 4) + seeds_cells(w, "arg.seed", seeds)
    f.auth = w.var("arg.validator", 256) if with_validator else 0
    f.data += ([1] + pack(f.auth, 32)) if with_validator else [0]
    f.data += w.sym_bytes("arg.trailing", trailing)
    c.note("delegate: data %d B, buffer %d B, seeds %s, validator %s%s" % (
        nd, nb, list(seeds), with_validator, ", aliases %s" % alias if alias else ""))
    return f


# ---------------------------------------------------------------- vaults, fees
def progdata_cells(w, name, extra=2, short=None):
    """a loader's program data account: variant, slot, optional authority, code"""
    c = w.sym_bytes(name + ".variant", 4) + w.sym_bytes(name + ".slot", 8) + w.sym_bytes(name + ".has", 1) + \
        w.sym_bytes(name + ".authority", 32) + w.sym_bytes(name + ".code", extra)
    return c if short is None else c[:short]


class ProgData:
    def __init__(s, v):
        s.ok = v.len >= 45
        if s.ok:
            s.variant, s.has, s.authority = v.b(0, 4), v.b(12, 1), v.b(13, 32)


def upgrade_authority(f, t, data_slot, program, who):
    """`who` is the upgrade authority of program according to data_slot"""
    v = f.v(f.pre, data_slot)
    p = ProgData(v)
    if not p.ok:
        return T(False)
    return land([eq(v.key, f.pda(t, program if isinstance(program, list) else kb(program), prog=LOADER), 256),
                 eq(p.variant, 3, 32), eq(p.has, 1, 8), eq(p.authority, who, 256)])


def mx(a, b):
    return If(UGE(a, b), a, b)


INIT_PV = ["payer", "fvault", "system"]
INIT_VV = ["payer", "admin", "dlpdata", "identity", "vvault", "system"]
CLOSE_VV = ["payer", "admin", "dlpdata", "identity", "vvault"]
VCLAIM = ["validator", "fvault", "vvault"]
PCLAIM = ["admin", "fvault", "dlpdata"]
WHITELIST = ["authority", "identity", "program", "progdata", "dlpdata", "pconf", "system"]
TOPUP = ["payer", "pubkey", "escrow", "system"]
DELEG_ESC = ["payer", "pubkey", "escrow", "dbuffer", "record", "meta", "system", "dlp"]
CLOSE_ESC = ["payer", "escrow", "system"]


def _fx(c, alias, names, datas, **add):
    f = Fx(c)
    for n in names:
        if n == "system":
            f.system()
        elif n == "dlp":
            f.add("dlp", key=DLP, owner=LOADER, lamports=1, executable=1)
        else:
            d = datas.get(n, 0)
            f.add(n, data=d(f.w) if callable(d) else f.w.sym_bytes(n + ".data", d),
                  executable=1 if n == "program" else 0)
    f.drop_aliased(alias)
    f.slots(names, alias)
    return f


def init_pv(c, alias=None, vlen=0, trailing=0):
    f = _fx(c, alias, INIT_PV, {"fvault": vlen})
    f.data = tag(5) + f.w.sym_bytes("arg.trailing", trailing)
    c.note("init protocol vault: address holds %d B%s" % (vlen, ", aliases %s" % alias if alias else ""))
    return f


def init_vv(c, alias=None, vlen=0, short=None, trailing=0):
    f = _fx(c, alias, INIT_VV, {"vvault": vlen, "dlpdata": lambda w: progdata_cells(w, "dlpdata", short=short)})
    f.data = tag(6) + f.w.sym_bytes("arg.trailing", trailing)
    c.note("init validator vault: address holds %d B%s" % (vlen, ", aliases %s" % alias if alias else ""))
    return f


def close_vv(c, alias=None, vlen=8, short=None, trailing=0):
    f = _fx(c, alias, CLOSE_VV, {"vvault": vlen, "dlpdata": lambda w: progdata_cells(w, "dlpdata", short=short)})
    f.data = tag(14) + f.w.sym_bytes("arg.trailing", trailing)
    c.note("close validator vault: vault holds %d B%s" % (vlen, ", aliases %s" % alias if alias else ""))
    return f


def vclaim(c, alias=None, amount=True, vlen=8, trailing=0):
    f = _fx(c, alias, VCLAIM, {"vvault": vlen, "fvault": 8})
    f.amount = f.w.var("arg.amount", 64) if amount else None
    f.data = tag(7) + (([1] + pack(f.amount, 8)) if amount else [0]) + f.w.sym_bytes("arg.trailing", trailing)
    c.note("validator claim: %s%s" % ("given amount" if amount else "everything", ", aliases %s" % alias if alias else ""))
    return f


def pclaim(c, alias=None, vlen=8, short=None):
    f = _fx(c, alias, PCLAIM, {"fvault": vlen, "dlpdata": lambda w: progdata_cells(w, "dlpdata", short=short)})
    f.data = tag(12)
    c.note("protocol claim%s" % (", aliases %s" % alias if alias else ""))
    return f


def whitelist(c, alias=None, n=1, short=None, pshort=None, trailing=0, ordered=True):
    """n: entries of the existing list; None: no list yet"""
    f = _fx(c, alias, WHITELIST, {
        "dlpdata": lambda w: progdata_cells(w, "dlpdata", short=short),
        "progdata": lambda w: progdata_cells(w, "progdata", short=pshort),
        "pconf": (lambda w: config_cells(w, "pconf", n)) if n is not None else 0})
    f.insert = f.w.var("arg.insert", 8)
    f.data = tag(8) + pack(f.insert, 1) + f.w.sym_bytes("arg.trailing", trailing)
    if n and ordered:
        ent = [bigend(f.w.vars["pconf.entry%d" % k]) for k in range(n)]
        f.assume(*[ULT(a, b) for a, b in zip(ent, ent[1:])])
        c.e.lia.keys = True
    f.n = n
    c.note("approved list: %s%s%s" % ("absent" if n is None else "%d entries" % n, "" if ordered else " in any order",
                                      ", aliases %s" % alias if alias else ""))
    return f


def bigend(x):
    """the value whose unsigned order is the byte-wise order of a little-endian one"""
    x = bv(x, 256)
    return z3.Concat([z3.Extract(8 * k + 7, 8 * k, x) for k in range(32)])


# ---------------------------------------------------------------- escrows
def topup(c, alias=None, elen=0, trailing=0):
    f = _fx(c, alias, TOPUP, {"escrow": elen})
    f.amount, f.index = f.w.var("arg.amount", 64), f.w.var("arg.index", 8)
    f.data = tag(9) + pack(f.amount, 8) + pack(f.index, 1) + f.w.sym_bytes("arg.trailing", trailing)
    c.note("top up: escrow holds %d B%s" % (elen, ", aliases %s" % alias if alias else ""))
    return f


def deleg_escrow(c, alias=None, elen=0, blen=0, rec_len=0, meta_len=0, seeds=(2,), with_validator=True):
    f = _fx(c, alias, DELEG_ESC, {"escrow": elen, "dbuffer": blen, "record": rec_len, "meta": meta_len})
    w = f.w
    f.freq, f.index = w.var("arg.freq", 32), w.var("arg.index", 8)
    f.auth = w.var("arg.validator", 256) if with_validator else 0
    f.data = tag(10) + pack(f.freq, 4) + seeds_cells(w, "arg.seed", seeds) + \
        (([1] + pack(f.auth, 32)) if with_validator else [0]) + pack(f.index, 1)
    c.note("delegate escrow: escrow %d B, buffer %d B, validator %s%s" % (
        elen, blen, with_validator, ", aliases %s" % alias if alias else ""))
    return f


def close_escrow(c, alias=None, elen=0, extra=0):
    f = _fx(c, alias, CLOSE_ESC, {"escrow": elen})
    f.index = f.w.var("arg.index", 8)
    f.data = tag(11) + pack(f.index, 1) + f.w.sym_bytes("arg.extra", extra)
    c.note("close escrow: escrow holds %d B%s" % (elen, ", aliases %s" % alias if alias else ""))
    return f
