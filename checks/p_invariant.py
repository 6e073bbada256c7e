"""What is true of every delegation in every reachable ledger, and that none of them is stuck."""
from fx import *
from p_commit import each, nm
from p_finalize import effective
from p_frame import setup

LINK = {"record": b"delegation", "meta": b"delegation-metadata", "cstate": b"state-diff", "crec": b"commit-state-record"}


class Book:
    """a delegated (or not) account and the program's accounts about it, at one moment"""

    def __init__(s, f, snap, subject="delegated"):
        s.f, s.snap = f, snap
        s.d = f.v(snap, subject)
        for n in LINK:
            setattr(s, n, f.v(snap, n) if f.slot.get(n, n) in snap else None)

    def rules(s):
        """-> [(name, condition)]"""
        f, out = s.f, []
        D, R, M, S, K = s.d, s.record, s.meta, s.cstate, s.crec
        for v in (R, M, S, K):
            if v is not None:
                out.append(("an address of the program is the program's or unused", Or(owned(v), uninit(v))))
        out.append(("record and metadata exist together", owned(R) == owned(M)))
        live = owned(R)
        r, m = Rec(R), Meta(M, f.lens)
        if not (r.ok and m.ok):
            out.append(("records are readable", And(Not(owned(R)), Not(owned(M)))))
        else:
            out.append(("records are readable", Implies(live, And(
                eq(r.disc, D_RECORD, 64), eq(m.disc, D_META, 64), ULE(B(m.und, 8), B(1, 8))))))
            out.append(("a delegated account is the program's", Implies(live, owned(D))))
            out.append(("a delegated account holds what its record says", Implies(live, UGE(B(D.lamports), B(r.lamports)))))
            out.append(("records are rent exempt", Implies(live, And(
                UGE(B(R.lamports), B(rent(R.len))), UGE(B(M.lamports), B(rent(M.len)))))))
        if S is None:
            return out
        out.append(("pending state and record exist together", owned(S) == owned(K)))
        pend = owned(S)
        k = CRec(K)
        if not (k.ok and r.ok and m.ok):
            out.append(("a pending commit is readable and of a delegated account", And(Not(owned(S)), Not(owned(K)))))
        else:
            up = If(UGT(B(k.lamports), B(r.lamports)), B(k.lamports) - B(r.lamports), B(0))
            out.append(("a pending commit is readable and of a delegated account", Implies(pend, And(
                live, eq(k.disc, D_COMMIT, 64), eq(k.account, D.key, 256)))))
            out.append(("a pending commit is not older than the finalized state", Implies(pend, UGE(B(k.slot), B(m.last)))))
            out.append(("a pending increase is on deposit", Implies(pend, UGE(B(S.lamports), up))))
            out.append(("pending accounts are rent exempt", Implies(pend, And(
                UGE(B(S.lamports), B(rent(S.len))), UGE(B(K.lamports), B(rent(K.len)))))))
        return out


def real(f, t, subject="delegated"):
    """every slot holds the subject's own account"""
    d = f.v(f.pre, subject).key
    return land([eq(f.v(f.pre, n).key, f.pda(t, x, d), 256) for n, x in LINK.items() if f.slot.get(n, n) in f.pre])


def commit_b(c, **k):
    return commit(c, buf=True, **k)


FIX = {"commit": commit, "commit_from_buffer": commit_b, "finalize": finalize, "undelegate": undelegate,
       "delegate": delegate, "delegate_escrow": deleg_escrow}


def start(c, ins, **k):
    """-> (fixture, subject, the rules as a condition); what their lengths decide about the
    accounts is assumed right away"""
    f = FIX[ins](c, **k)
    if not hasattr(f, "lens"):
        f.lens = ()
    f.before()
    subject = "escrow" if ins == "delegate_escrow" else "delegated"
    f.assume(real(f, f.st, subject))
    b = Book(f, f.pre, subject)
    for v in (b.record, b.meta, b.cstate, b.crec):
        if v is not None:
            f.assume(owned(v) if v.len else Or(owned(v), uninit(v)))
    if b.record.len:
        f.assume(owned(b.d))
    if b.crec is not None and b.crec.len:
        f.assume(owned(b.cstate))
    c.note("the accounts in the record slots are the subject's own (impostors: C01, C08, C09, C13)")
    return f, subject, land([x for _, x in b.rules()])


# ---- C26
def preserved(c, ins, mode=0, **k):
    """rules before => rules after, whoever calls with whatever privileges"""
    f, subject, ok = start(c, ins, **k)
    seen = False
    for t in f.go(mode=mode):
        if t.result[0] != "ok":
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        f.lens = k.get("seeds", (3,)) if ins != "delegate_escrow" else seed_lens(f.v(q, "meta"))
        for label, x in Book(f, q, subject).rules():
            c.claim(t, label, x, ok)
        seen = seen or any(c.reach.values())
    c.expect("an effective run", seen)


def refused(c, ins, **k):
    """out of turn: committing or ending with a commit pending, delegating twice, finalizing nothing"""
    f, _, ok = start(c, ins, **k)
    for t in f.go():
        if t.result[0] == "ok":
            c.never(t, "out of turn, nothing changes", And(ok, Not(f.unchanged(f.post(t)))))


def seed_lens(v):
    """seed lengths a metadata account states, where its form is concrete"""
    out, o = [], 21
    try:
        n = v.b(17, 4)
        for _ in range(n):
            l = v.b(o, 4)
            out.append(l)
            o += 4 + l
    except Exception:
        return ()
    return tuple(out)


BASE = [dict(ins="commit"), dict(ins="commit_from_buffer", nc=0), dict(ins="commit", nd=0, nc=3, seeds=(), conf=1),
        dict(ins="finalize"), dict(ins="finalize", nd=5, nc=0), dict(ins="undelegate"), dict(ins="undelegate", nd=0),
        dict(ins="undelegate", mode=1, nd=2), dict(ins="undelegate", nd=2, alias={"rentpayer": "validator"}), dict(ins="delegate"), dict(ins="delegate", nd=0, nb=0, seeds=(7, 32)),
        dict(ins="delegate_escrow")]
IDLE = [dict(ins="finalize", nc=0, cr_len=0), dict(ins="commit", cs_len=3, cr_len=88), dict(ins="undelegate", cs_len=2, cr_len=88),
        dict(ins="delegate", rec_len=96, meta_len=60), dict(ins="commit", cr_len=88)]
MORE = [dict(ins="commit", conf=2), dict(ins="commit_from_buffer", conf=1, nc=7, nd=2), dict(ins="commit", seeds=(1, 0, 7), nc=40),
        dict(ins="finalize", nd=0, nc=9, seeds=(2, 0, 32)), dict(ins="finalize", nd=64, nc=33), dict(ins="undelegate", mode=2, nd=2),
        dict(ins="undelegate", mode=1, nd=0, seeds=()), dict(ins="undelegate", nd=0, alias={"rentpayer": "validator"}),
        dict(ins="undelegate", mode=1, nd=2, alias={"rentpayer": "validator"}), dict(ins="delegate", seeds=(), with_validator=False),
        dict(ins="delegate", nd=2, seeds=(1, 4, 4, 4)), dict(ins="delegate", nd=0, nb=0, seeds=(7,), alias={"program": "system"}),
        dict(ins="delegate_escrow", elen=2, blen=2), dict(ins="delegate_escrow", seeds=(), with_validator=False)]
LARGE = [dict(ins="commit", nd=300, nc=800), dict(ins="finalize", nd=1500, nc=2), dict(ins="finalize", nd=0, nc=1300), dict(ins="undelegate", nd=700),
         dict(ins="delegate", nd=900)]
each("C26", BASE)(preserved)
each("C26", IDLE)(refused)
each("C26", LARGE, "soft")(preserved)
each("C26", MORE, "thorough")(preserved)


def kept(c, ins, mode=0, **k):
    """the program's vaults and lists, once rent exempt, stay so or are closed"""
    s, f = setup(c, ins, **k)
    if "vvault" in s.slots:
        c.note("vaults: whatever the program owns in a vault's place is rent exempt before")
    seen = False
    f.before()
    ks = [n for n in ("vvault", "fvault", "pconf") if n in s.slots]
    exempt = lambda v: Implies(owned(v), UGE(B(v.lamports), B(rent(v.len))))
    ok = land([exempt(f.v(f.pre, n)) for n in ks])
    for t in f.go(mode=mode):
        if t.result[0] != "ok":
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        for n in ks:
            c.claim(t, "vaults and lists stay rent exempt until they are closed", exempt(f.v(q, n)), ok)
    c.expect("an effective run", seen)


each("C26", [dict(ins=x) for x in ("finalize", "undelegate", "init_protocol_vault", "init_validator_vault", "close_validator_vault",
                                   "claim_validator_fees", "claim_protocol_fees")] + [
    dict(ins="claim_validator_fees", amount=False), dict(ins="approve", n=None), dict(ins="approve", n=1)])(kept)
each("C26", [dict(ins="undelegate", mode=1), dict(ins="commit", conf=1), dict(ins="approve", n=2), dict(ins="top_up"), dict(ins="close_escrow")],
     "thorough")(kept)


# ---- C27
def call(f, signers=(), writable=()):
    return land([f.signer(n) for n in signers] + [f.writable(n) for n in writable])


def vault(f, t):
    """the calling validator is registered"""
    return And(eq(f.v(f.pre, "vvault").key, f.pda(t, b"v-fees-vault", f.v(f.pre, "validator").key), 256), owned(f.v(f.pre, "vvault")))


def can_finalize(f, t):
    K = CRec(f.v(f.pre, "crec"))
    return land([call(f, ["validator"], ["validator", "delegated", "cstate", "crec", "record", "meta", "vvault"]), vault(f, t),
                 owned(f.v(f.pre, "cstate")), eq(K.identity, f.v(f.pre, "validator").key, 256)])


def can_undelegate(f, t):
    g = lambda n: f.v(f.pre, n)
    d = g("delegated")
    r, m = Rec(g("record")), Meta(g("meta"), f.lens)
    c = [call(f, ["validator"], ["validator", "delegated", "ubuffer", "record", "meta", "rentpayer", "fvault", "vvault"]), vault(f, t),
         owned(g("record")), eq(m.und, 1, 8), Not(owned(g("cstate"))), owned(g("validator"), SYSTEM),
         eq(g("fvault").key, f.pda(t, b"fees-vault"), 256), owned(g("fvault")), uninit(g("ubuffer")),
         eq(g("ubuffer").key, f.pda(t, b"undelegate-buffer", d.key), 256),
         eq(r.owner, g("program").key, 256), eq(m.payer, g("rentpayer").key, 256)]
    if d.len:
        # the owner program cooperates (which the program itself is not)
        c += [UGE(B(g("validator").lamports), B(rent(d.len))), UGE(B(d.lamports), B(rent(d.len))),
              Not(eq(r.owner, DLP, 256)), Not(eq(r.owner, SYSTEM, 256))]
    return land(c)


def can_commit(f, t):
    g = lambda n: f.v(f.pre, n)
    r, m = Rec(g("record")), Meta(g("meta"), f.lens)
    need = If(UGT(B(f.lam), B(r.lamports)), B(f.lam) - B(r.lamports), B(0))
    pc = g("pconf")
    c = [call(f, ["validator"], ["validator", "cstate", "crec", "meta"]), vault(f, t), Not(f.writable("pconf")),
         owned(g("record")), Not(owned(g("cstate"))), eq(m.und, 0, 8), ULE(B(f.allow, 8), B(1, 8)),
         owned(g("validator"), SYSTEM), eq(pc.key, f.pda(t, b"p-conf", r.owner), 256), UGE(B(f.slotv), B(m.last)),
         ULE(need, B(1 << 56)), UGE(B(g("validator").lamports), need + B(rent(len(f.content)) + rent(88)))]
    if pc.len == 0:
        c.append(owned(pc, SYSTEM))
    else:
        n = (pc.len - 12) // 32
        c += [owned(pc), eq(pc.b(0, 8), D_CONFIG, 64), lor([eq(pc.b(12 + 32 * k, 32), g("validator").key, 256) for k in range(n)])]
    return land(c)


CAN = {"finalize": (can_finalize, "a pending commit can be finalized by its committer"),
       "undelegate": (can_undelegate, "a delegation whose end is allowed, with nothing pending, can be ended"),
       "commit": (can_commit, "a delegation with nothing pending can be committed to"),
       "commit_from_buffer": (can_commit, "a delegation with nothing pending can be committed to")}


def progress(c, ins, **k):
    f, _, ok = start(c, ins, **k)
    can, label = CAN[ins]
    reached = False
    for t in f.go():
        x = And(ok, can(f, t))
        if t.result[0] == "ok":
            q = f.post(t)
            c.claim(t, label, Not(f.unchanged(q)), x, what=label + ": the instruction does nothing")
            reached = reached or bool(c.reach.get(label))
            continue
        c.never(t, label, x, what="%s: it fails (%s)" % (label, t.result))
    c.expect("success", reached)


PR = [dict(ins="commit"), dict(ins="commit_from_buffer", nc=0, nd=2), dict(ins="commit", conf=1, nd=0, seeds=()), dict(ins="finalize"),
      dict(ins="finalize", nd=5, nc=0), dict(ins="finalize", nd=0, nc=3, seeds=(1, 32)), dict(ins="undelegate"), dict(ins="undelegate", nd=0),
      dict(ins="undelegate", nd=2, alias={"rentpayer": "validator"})]
PRB = [dict(ins="commit", nd=300, nc=800), dict(ins="finalize", nd=1500, nc=2), dict(ins="finalize", nd=0, nc=1300), dict(ins="undelegate", nd=700)]
PRD = [dict(ins="commit", conf=2), dict(ins="commit_from_buffer", conf=1, nc=7), dict(ins="commit", seeds=(32, 0, 1), nc=40),
       dict(ins="finalize", nd=64, nc=33, seeds=(2,) * 6), dict(ins="finalize", nd=1, nc=1), dict(ins="finalize", nd=10240, nc=10240),
       dict(ins="undelegate", nd=40, seeds=()), dict(ins="undelegate", nd=0, alias={"rentpayer": "validator", "program": "system"}),
       dict(ins="undelegate", nd=10240), dict(ins="commit", nc=10240, nd=2)]
each("C27", PR)(progress)
each("C27", PRB, "soft")(progress)
each("C27", PRD, "thorough")(progress)
