"""What no instruction may do, whatever accounts it is given."""
import itertools
from fx import *
from p_commit import each, nm
from p_finalize import effective
from p_escrow import escrow_of
from sym import EngineError

K0 = lambda f, n: f.w.acct[f.slot[n]].key
K = lambda f, n: f.v(f.pre, n).key


class Spec:
    """one instruction: its slots, the slots it may write, and the accounts of
    the program it may change (own) or create (made), with their addresses"""

    def __init__(s, fixture, slots, writable, own=(), made=(), shapes=((),), modes=(0,), skip=()):
        s.fixture, s.slots, s.writable, s.own, s.made = fixture, slots, writable, dict(own), dict(made)
        s.shapes, s.modes, s.skip = shapes, modes, skip


def at(*seeds, of=None):
    """address derived from constant seeds and the key of a slot"""
    def k(f, t, n):
        xs = list(seeds) + ([K(f, of)] if of else [])
        return eq(K(f, n), f.pda(t, *xs), 256)
    return k


def record_free(d):
    """the account in slot d is not delegated: its record's address is unused"""
    def k(f, t, n):
        rk = f.pda(t, b"delegation", K(f, d))
        return lor([And(eq(f.pre[x].key, rk, 256), uninit(f.pre[x])) for x in f.pre])
    return k


def delegated_ok(f, t, n):
    """its own record and metadata are present"""
    return land([owned(f.v(f.pre, x)) for x in ("record", "meta")] + [
        at(b"delegation", of="delegated")(f, t, "record"), at(b"delegation-metadata", of="delegated")(f, t, "meta")])


OF = {"record": at(b"delegation", of="delegated"), "meta": at(b"delegation-metadata", of="delegated"),
      "cstate": at(b"state-diff", of="delegated"), "crec": at(b"commit-state-record", of="delegated")}
pick = lambda *n: {x: OF[x] for x in n}
ADM = [dict(), dict(short=44)]


def ordered_escrow(c, ordered=True, alias=None, **k):
    f = deleg_escrow(c, alias=alias, **k)
    if ordered:
        x = K0(f, "escrow")
        for n, key in (("record", f.pda(f.st, b"delegation", x)), ("meta", f.pda(f.st, b"delegation-metadata", x)),
                       ("dbuffer", f.pda(f.st, b"buffer", x, prog=SYSTEM))):
            if n not in (alias or {}) and n not in (alias or {}).values():
                f.assume(eq(K0(f, n), key, 256))
        c.note("delegate escrow: buffer, record and metadata in the documented order")
    return f


SPECS = {
    "commit": Spec(commit, COMMIT, ["validator", "cstate", "crec", "meta"], pick("meta"), pick("cstate", "crec"),
                   [dict(), dict(conf=1), dict(nd=0, nc=0)]),
    "commit_from_buffer": Spec(lambda c, **k: commit(c, buf=True, **k), COMMIT_BUF,
                               ["validator", "cstate", "crec", "meta"], pick("meta"), pick("cstate", "crec"), [dict()]),
    "finalize": Spec(finalize, FINALIZE, ["validator", "delegated", "cstate", "crec", "record", "meta", "vvault"],
                     dict(delegated=delegated_ok, **pick("record", "meta", "cstate", "crec")), {}, [dict(), dict(nd=5, nc=0)]),
    "undelegate": Spec(undelegate, UNDELEGATE, ["validator", "delegated", "ubuffer", "record", "meta", "rentpayer",
                                                "fvault", "vvault"],
                       dict(delegated=delegated_ok, **pick("record", "meta")), {}, [dict(), dict(nd=0)], (0, 1, 2)),
    "delegate": Spec(delegate, DELEGATE, ["payer", "delegated", "dbuffer", "record", "meta"],
                     dict(delegated=record_free("delegated")), pick("record", "meta"), [dict(), dict(nd=0, nb=0)]),
    "delegate_escrow": Spec(ordered_escrow, DELEG_ESC, ["payer", "escrow", "dbuffer", "record", "meta"],
                            dict(escrow=record_free("escrow")),
                            dict(escrow=lambda f, t, n: eq(K(f, n), escrow_of(f, t, K(f, "pubkey")), 256), **{
                                n: (lambda f, t, n: Or(at(b"delegation", of="escrow")(f, t, n),
                                                       at(b"delegation-metadata", of="escrow")(f, t, n)))
                                for n in ("record", "meta", "dbuffer", "payer", "pubkey")}),
                            [dict(), dict(ordered=False)]),
    "init_protocol_vault": Spec(init_pv, INIT_PV, ["payer", "fvault"], {}, dict(fvault=at(b"fees-vault"))),
    "init_validator_vault": Spec(init_vv, INIT_VV, ["payer", "vvault"], {}, dict(vvault=at(b"v-fees-vault", of="identity")), ADM),
    "close_validator_vault": Spec(close_vv, CLOSE_VV, ["payer", "identity", "vvault"],
                                  dict(vvault=at(b"v-fees-vault", of="identity")), {}, ADM),
    "claim_validator_fees": Spec(vclaim, VCLAIM, ["validator", "fvault", "vvault"],
                                 dict(vvault=at(b"v-fees-vault", of="validator")), {}, [dict(), dict(amount=False)]),
    "claim_protocol_fees": Spec(pclaim, PCLAIM, ["admin", "fvault"], dict(fvault=at(b"fees-vault")), {}, ADM),
    "approve": Spec(whitelist, WHITELIST, ["authority", "pconf"], dict(pconf=at(b"p-conf", of="program")),
                    dict(pconf=at(b"p-conf", of="program")), [dict(n=1), dict(n=None)]),
    "top_up": Spec(topup, TOPUP, ["payer", "escrow"], {}, {}, [dict(), dict(elen=2)]),
    "close_escrow": Spec(close_escrow, CLOSE_ESC, ["payer", "escrow"], {}, {}, [dict(), dict(elen=2)]),
}


def setup(c, ins, alias=None, mode=0, writable=False, **k):
    s = SPECS[ins]
    c.fixed = {n: (None, 1) for n in s.writable} if writable else None
    f = s.fixture(c, alias=alias, **k)
    if "pconf" in s.slots and "pconf" not in (alias or {}):
        # nobody else can be made the owner of an address of the program
        o = f.w.vars["pconf.owner"]
        f.assume(Or(eq(o, SYSTEM, 256), eq(o, DLP, 256), Not(f.writable0("pconf"))))
        c.note("approved list: its address is owned by the system program or the program")
    return s, f


def changed(a, b):
    """owner or data changed or lamports taken"""
    return lor([Not(eq(a.owner, b.owner, 256)), T(a.len != b.len), Not(same_bytes(a.cells, b.cells)) if a.len == b.len else T(True),
                ULT(B(b.lamports), B(a.lamports))])


# ---- C15
def locked(c, ins, alias=None, mode=0, **k):
    s, f = setup(c, ins, alias, **k)
    seen = False
    for t in f.go(mode=mode):
        if t.result[0] != "ok":
            continue
        q, eff = effective(c, f, t)
        if eff is None:
            continue
        seen = True
        for x in f.pre:
            a, b = f.pre[x], q[x]
            role = [n for n in s.slots if f.slot.get(n, n) == x]
            was, is_ = owned(a), owned(b)
            ok = lor([s.own[n](f, t, n) for n in role if n in s.own])
            c.claim(t, "accounts of the program change only in their role", Implies(And(was, changed(a, b)), ok))
            ok = lor([s.made[n](f, t, n) for n in role if n in s.made])
            c.claim(t, "accounts of the program appear only at their addresses", Implies(And(Not(was), is_), ok))
    if not alias and mode != 2 and not k.get("short") and not k.get("elen"):
        c.expect("an effective run", seen)


# ---- C25
def balanced(c, ins, alias=None, mode=0, **k):
    s, f = setup(c, ins, alias, writable=True, **k)
    f.assume(*[Not(f.signer0(n)) for n in s.slots if n in PDAS])
    c.note("the program's own addresses sign nothing from outside")
    seen = False
    for t in f.go(mode=mode):
        if t.result[0] == "abort":
            code = t.result[1]
            c.claim(t, "completed operations are never rejected by the runtime",
                    T(not (is_c(code) and code in (17, 42, 900))),
                    what="the program reports success, or calls another program, and the runtime rejects it (%s)" % (t.result,))
            continue
        if t.result[0] != "ok":
            continue
        seen = True
        q = f.post(t)
        for x in f.pre:
            a, b = f.pre[x], q[x]
            role = [n for n in s.slots if f.slot.get(n, n) == x]
            may = [f.signer(x)]
            if ins == "close_escrow" and "escrow" in role:
                may.append(And(f.signer("payer"), eq(K(f, "escrow"), escrow_of(f, t, K(f, "payer")), 256)))
            if ins == "undelegate" and "ubuffer" in role:
                # the program's own address; whatever was sent there goes to the validator
                may.append(at(b"undelegate-buffer", of="delegated")(f, t, "ubuffer"))
            c.claim(t, "only signing wallets pay", Implies(And(
                Not(owned(a)), ULT(B(b.lamports), B(a.lamports))), And(owned(a, SYSTEM), lor(may))))
        pre = z3.Sum([B(f.pre[n].lamports) for n in f.pre])
        post = z3.Sum([B(q[n].lamports) for n in f.pre])
        c.claim(t, "balances sum to what they did", pre == post)
    if not alias and mode != 2 and not k.get("short") and not k.get("elen"):
        c.expect("a successful run", seen)


# accounts that cannot coincide: the recorded rent payer signed its delegation,
# which none of the program's own addresses can; no address is derived from itself
IMPOSSIBLE = [("rentpayer", x) for x in ("ubuffer", "cstate", "crec", "record", "meta")] + [
    ("fvault", "rentpayer"), ("vvault", "rentpayer"), ("vvault", "identity")]

PDAS = ("cstate", "crec", "record", "meta", "vvault", "fvault", "ubuffer", "pconf", "escrow")
RISKY = {
    "commit": [{"vvault": "delegated"}, {"validator": "delegated"}],
    "commit_from_buffer": [{"buffer": "cstate"}, {"buffer": "delegated"}, {"buffer": "crec"}],
    "finalize": [{"vvault": "delegated"}, {"crec": "cstate"}, {"validator": "delegated"}],
    "undelegate": [{"rentpayer": "validator"}, {"rentpayer": "delegated"}, {"vvault": "fvault"}],
    "delegate": [{"dbuffer": "delegated"}, {"delegated": "payer"}],
    "delegate_escrow": [{"pubkey": "payer"}],
    "close_validator_vault": [{"identity": "admin"}, {"vvault": "admin"}],
    "claim_validator_fees": [{"vvault": "fvault"}, {"fvault": "validator"}, {"vvault": "validator"}],
    "claim_protocol_fees": [{"fvault": "admin"}],
    "top_up": [{"escrow": "payer"}, {"pubkey": "payer"}],
    "close_escrow": [{"escrow": "payer"}],
    "approve": [{"pconf": "authority"}, {"pconf": "progdata"}],
}


def valid_alias(s, al):
    (a, b), = al.items()
    if (a, b) in IMPOSSIBLE:
        return False
    return s.slots.index(a) > s.slots.index(b) and a not in ("system", "dlp") and b not in ("system", "dlp", "program")


for ins, s in SPECS.items():
    done = []
    for k in s.shapes:
        k = dict(k)
        for mode in s.modes:
            for fn, p in ((locked, "C15"), (balanced, "C25")):
                tier = "quick" if (not k or k == dict(s.shapes[0]) or p == "C25") and mode < 2 and k.get("ordered", True) else "thorough"
                each(p, [dict(ins=ins, mode=mode, **k)], tier)(fn)
    k = dict(s.shapes[0])
    pairs = [{a: b} for b, a in itertools.combinations(s.slots, 2)]
    for al in pairs:
        if not valid_alias(s, al):
            continue
        kk = dict(k)
        if {"delegated", "validator", "payer"} >= set(al) | set(al.values()) and "nd" not in kk and ins not in (
                "delegate_escrow", "top_up", "close_escrow", "init_protocol_vault", "init_validator_vault", "close_validator_vault"):
            kk["nd"] = 0
        for fn, p in ((locked, "C15"), (balanced, "C25")):
            tier = "quick" if al in [{**r} for r in RISKY.get(ins, [])] else "thorough"
            each(p, [dict(ins=ins, alias=al, **kk)], tier)(fn)
