"""Accounts, instructions and ledger states for the symbolic executor."""
import z3
from sym import (Engine, EngineError, PathEnd, bv, lit, pack, unpack, as_bool, is_c, tobv, same)

ALPH = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"


def b58(x):
    n = 0
    for c in x:
        n = n * 58 + ALPH.index(c)
    b = n.to_bytes(32, "big")
    return int.from_bytes(b, "little")


def to58(v):
    b = v.to_bytes(32, "little")
    n = int.from_bytes(b, "big")
    r = ""
    while n:
        n, k = divmod(n, 58)
        r = ALPH[k] + r
    return "1" * (len(b) - len(b.lstrip(b"\0"))) + r


SYSTEM = 0
DLP = b58("DELeGGvXpWV2fqJUhqcF5ZSYMS4JTLjteaAMARRSaeSh")
LOADER = b58("BPFLoaderUpgradeab1e11111111111111111111111")
NATIVE = b58("NativeLoader1111111111111111111111111111111")
Engine.fixed_keys = [SYSTEM, DLP, LOADER, NATIVE]

OFF_SIGNER, OFF_WRITABLE, OFF_EXEC, OFF_ORIG = 1, 2, 3, 4
OFF_KEY, OFF_OWNER, OFF_LAMPORTS, OFF_LEN, OFF_DATA = 8, 40, 72, 80, 88
SPARE = 10240
ROOM = 1024         # for growth over several instructions
LAMPORTS_MAX = 1 << 56     # per account, before the transaction (72 million SOL)


def rent(n):
    """what the runtime charges for n bytes (the default Rent)"""
    return (n + 128) * 3480 * 2


def u(n, k):
    """k-byte little-endian cells of an int or BV"""
    return pack(n, k)


class Acct:
    def __init__(s, name, addr, key):
        s.name, s.addr, s.key = name, addr, key


class View:
    """one account at one moment"""
    __slots__ = ("key", "owner", "lamports", "len", "cells", "exec")

    def b(s, o, n):
        """n bytes at o as int/BV"""
        return unpack(s.cells[o:o + n])

    @property
    def data(s):
        return unpack(s.cells) if s.cells else 0


def eq(a, b, n=None):
    """equality of two values of n bits"""
    if is_c(a) and is_c(b):
        return z3.BoolVal(a == b)
    if n is None:
        n = a.size() if not is_c(a) else b.size()
    return tobv(a, n) == tobv(b, n)


def same_bytes(x, y):
    """equality of two cell lists"""
    if len(x) != len(y):
        return z3.BoolVal(False)
    if not x:
        return z3.BoolVal(True)
    return eq(unpack(x), unpack(y), 8 * len(x))


class World:
    def __init__(s, eng):
        s.e = eng
        s.acct = {}
        s.vars = {}

    # -- symbolic inputs
    def var(s, name, bits):
        v = s.vars.get(name)
        if v is None:
            v = s.vars[name] = z3.BitVec(name, bits)
        return v

    def sym_bytes(s, name, n):
        return pack(s.var(name, 8 * n), n) if n else []

    def add(s, st, name, key=None, owner=None, lamports=None, data=(), executable=0):
        """a new account; None: symbolic"""
        if key is None:
            key = s.var(name + ".key", 256)
        if owner is None:
            owner = s.var(name + ".owner", 256)
        if lamports is None:
            lamports = s.var(name + ".lamports", 64)
            st.pc.append(z3.ULE(lamports, z3.BitVecVal(LAMPORTS_MAX, 64)))
        if executable is None:
            executable = s.var(name + ".exec", 8)
        data = list(data)
        addr = s.e.alloc(st, OFF_DATA + len(data) + SPARE + ROOM, "acct:" + name)
        ob = st.mem[addr >> 32]
        c = ob.cells
        c[0] = 255
        c[OFF_EXEC:OFF_EXEC + 1] = pack(executable, 1)
        c[OFF_KEY:OFF_KEY + 32] = pack(key, 32)
        c[OFF_OWNER:OFF_OWNER + 32] = pack(owner, 32)
        c[OFF_LAMPORTS:OFF_LAMPORTS + 8] = pack(lamports, 8)
        c[OFF_LEN:OFF_LEN + 8] = pack(len(data), 8)
        c[OFF_DATA:OFF_DATA + len(data)] = data
        s.acct[name] = Acct(name, addr, key)
        return s.acct[name]

    def view(s, st, name):
        a = s.acct[name].addr
        v = View()
        v.key = s.e.load(st, a + OFF_KEY, 32)
        v.owner = s.e.load(st, a + OFF_OWNER, 32)
        v.lamports = s.e.load(st, a + OFF_LAMPORTS, 8)
        v.len = s.e.load(st, a + OFF_LEN, 8)
        v.exec = s.e.load(st, a + OFF_EXEC, 1)
        if not is_c(v.len):
            # the path may fix it all the same
            vs = s.e.values(st, v.len, 1)
            v.len = vs[0][1]
        v.cells = s.e.cells(st, a + OFF_DATA, v.len)
        return v

    def snap(s, st, names=None):
        return {n: s.view(st, n) for n in (names or s.acct)}

    def set(s, st, name, owner=None, lamports=None, data=None):
        a = s.acct[name].addr
        if owner is not None:
            s.e.store(st, a + OFF_OWNER, 32, owner)
        if lamports is not None:
            s.e.store(st, a + OFF_LAMPORTS, 8, lamports)
        if data is not None:
            s.e.store(st, a + OFF_LEN, 8, len(data))
            s.e.put(st, a + OFF_DATA, list(data))

    def distinct(s, st, names=None):
        """different storage means different addresses"""
        ks = [s.acct[n].key for n in (names or s.acct)]
        for i in range(len(ks)):
            for j in range(i):
                c = lit(z3.Not(eq(ks[i], ks[j], 256)))
                if is_c(c):
                    if not c:
                        raise EngineError("two accounts with one address")
                else:
                    st.pc.append(c)
                    st.model = None

    def pda(s, st, seeds, prog=DLP):
        """the canonical program-derived address of cell-list seeds"""
        import sym
        c = []
        for x in seeds:
            c += list(x) if not isinstance(x, (bytes, bytearray)) else list(x)
        n = len(c)
        val = unpack(c) if n else 0
        b = sym.bump_fn(n)(bv(prog, 256), bv(val, max(8, 8 * n)))
        return sym._table(s.e, st, prog, c + [(b, 0)])[3], b

    # -- one transaction with a single instruction
    def step(s, st, metas, data, mode=0, pid=DLP):
        """metas: [(name, signer, writable)] with 0/1 or symbolic bytes.
        Yields final states (.result)."""
        e = s.e
        flags = {}
        for name, sg, wr in metas:
            if name in flags:
                o = flags[name]
                flags[name] = (o[0] | sg, o[1] | wr)
            else:
                flags[name] = (sg, wr)
        for name, (sg, wr) in flags.items():
            a = s.acct[name].addr
            e.store(st, a + OFF_SIGNER, 1, sg)
            e.store(st, a + OFF_WRITABLE, 1, wr)
            ln = e.load(st, a + OFF_LEN, 8)
            e.store(st, a + OFF_ORIG, 4, ln)
            e.put(st, a + OFF_DATA + ln, [0] * SPARE)
        arr = e.alloc(st, max(8, 8 * len(metas)), "metas")
        for k, m in enumerate(metas):
            e.store(st, arr + 8 * k, 8, s.acct[m[0]].addr)
        d = e.alloc(st, max(1, len(data)), "ixdata")
        e.put(st, d, list(data))
        p = e.alloc(st, 32, "pid")
        e.put(st, p, pack(pid, 32))
        st.events = []
        names = list(flags)
        rec = {"accounts": {}, "metas": [m[0] for m in metas], "data": list(data), "pid": pid,
               "mode": mode, "syms": len(st.syms)}
        for n in names:
            v = s.view(st, n)
            rec["accounts"][n] = {"signer": flags[n][0], "writable": flags[n][1], "exec": v.exec,
                                  "key": v.key, "owner": v.owner, "lamports": v.lamports, "cells": v.cells}
        st.tags = dict(st.tags)
        st.tags["steps"] = st.tags.get("steps", ()) + (rec,)
        e.call(st, "harness_run", [p, arr, len(metas), d, len(data), mode])
        def done(t):
            t.tags = dict(t.tags)
            t.tags["posts"] = t.tags.get("posts", ()) + (
                {"result": t.result, "views": s.snap(t, names) if t.result[0] == "ok" else None},)
            return t
        for t in e.run(st):
            if t.result[0] == "ret":
                v = t.result[1]
                if not is_c(v):
                    try:
                        br = e.branch(t, v == 0)
                    except PathEnd:
                        continue
                    for b, ok in br:
                        b.result = ("ok",) if ok else ("err", v)
                        yield done(b)
                    continue
                t.result = ("ok",) if v == 0 else ("err", v)
            yield done(t)

    # -- one call of a public function of the crate (harness/common/kern.rs)
    def kern(s, st, kind, data, cap=2048):
        """yields final states (.result, .out: the output's cells)"""
        e = s.e
        st.tags = dict(st.tags)
        st.tags["steps"] = st.tags.get("steps", ()) + ({"kern": kind, "data": list(data), "syms": len(st.syms)},)
        d = e.alloc(st, max(8, len(data)), "kin")
        e.put(st, d, list(data))
        o, ol = e.alloc(st, cap, "kout"), e.alloc(st, 8, "klen")
        e.call(st, "harness_kern", [kind, d, len(data), o, cap, ol])

        def done(t):
            out = None
            if t.result[0] == "ok":
                n = e.load(t, ol, 8)
                if not is_c(n):
                    raise EngineError("symbolic output length")
                out = e.cells(t, o, n)
            t.tags = dict(t.tags)
            t.tags["posts"] = t.tags.get("posts", ()) + ({"result": t.result, "out": out},)
            t.tags["out"] = out
            return t
        for t in e.run(st):
            if t.result[0] == "ret":
                v = t.result[1]
                if not is_c(v):
                    try:
                        br = e.branch(t, v == 0)
                    except PathEnd:
                        continue
                    for b, ok in br:
                        b.result = ("ok",) if ok else ("err", v)
                        yield done(b)
                    continue
                t.result = ("ok",) if v == 0 else ("err", v)
            yield done(t)


def tag(n):
    return [n, 0, 0, 0, 0, 0, 0, 0]
