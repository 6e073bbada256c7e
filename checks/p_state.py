"""Stored accounts: what is written reads back, nothing else is read."""
from fx import *
from p_commit import each, nm

KINDS = {20: ("delegation record", D_RECORD, 96), 21: ("commit record", D_COMMIT, 88),
         22: ("delegation metadata", D_META, None), 23: ("approved list", D_CONFIG, None)}


def flat_meta(w, name, lens):
    c = w.sym_bytes(name + ".last", 8) + w.sym_bytes(name + ".und", 1) + w.sym_bytes(name + ".payer", 32) + [len(lens)]
    for k, l in enumerate(lens):
        c = list(c) + list(u(l, 4)) + w.sym_bytes("%s.seed%d" % (name, k), l)
    return c


def reads_back(c, kind, lens=(), n=0):
    w, st = c.world()
    ordered = n
    if kind in (20, 21):
        size = KINDS[kind][2] - 8
        flat = w.sym_bytes("fields", size)
    elif kind == 22:
        flat = flat_meta(w, "m", lens)
        st.pc.append(ULE(w.vars["m.und"], B(1, 8)))
    else:
        ent = [w.var("entry%d" % k, 256) for k in range(n)]
        flat = [n] + [x for e in ent for x in pack(e, 32)]
    c.note("round trip of a %s%s" % (KINDS[kind][0], " with seeds %s" % list(lens) if kind == 22 else
                                     " of %d entries" % n if kind == 23 else ""))
    done = False
    for t in c.kern(w, st, kind * 10, flat):
        if t.result[0] != "ok":
            c.never(t, "writing always succeeds")
            continue
        out = t.tags["out"]
        if kind == 23:
            size = out[-8:]
            out = out[:-8]
            c.claim(t, "the announced size is the size", same_bytes(size, u(len(out), 8)))
        c.claim(t, "it is marked as what it is", same_bytes(out[:8], u(KINDS[kind][1], 8)))
        if KINDS[kind][2]:
            c.claim(t, "it has its fixed size", T(len(out) == KINDS[kind][2]))
        for how in ((1, 2) if kind in (20, 21) else (1,)):
            for x in c.kern(w, t.fork(), kind * 10 + how, out):
                done = True
                if x.result[0] != "ok":
                    c.never(x, "what was written can be read")
                    continue
                back = x.tags["out"]
                if kind != 23:
                    c.claim(x, "every field reads back", same_bytes(back, flat))
                    continue
                got = [unpack(back[1 + 32 * k:33 + 32 * k]) for k in range((len(back) - 1) // 32)]
                isin = lambda y, s: lor([eq(y, z, 256) for z in s])
                c.claim(x, "every entry reads back", land([isin(y, got) for y in ent]))
                c.claim(x, "nothing else reads back", land([isin(y, ent) for y in got]))
                c.claim(x, "once each", land([Not(eq(a, b, 256)) for i, a in enumerate(got) for b in got[:i]]))
        for other in KINDS:
            if other == kind:
                continue
            for x in c.kern(w, t.fork(), other * 10 + 1, out):
                c.claim(x, "no other reader accepts it", T(x.result[0] == "err"),
                        what="the %s reader accepts, or crashes on, a %s" % (KINDS[other][0], KINDS[kind][0]))
    c.expect("read back", done)


METAS = [dict(kind=22, lens=()), dict(kind=22, lens=(3,)), dict(kind=22, lens=(0, 7))]
each("C21", [dict(kind=20), dict(kind=21), dict(kind=23), dict(kind=23, n=1), dict(kind=23, n=2)] + METAS)(reads_back)
each("C21", [dict(kind=23, n=3), dict(kind=22, lens=(32, 0, 9)), dict(kind=22, lens=(1,) * 6), dict(kind=22, lens=(300,))], "thorough")(reads_back)


def rejects(c, how, length, seeds=None):
    """arbitrary bytes of one length"""
    kind = how // 10
    w, st = c.world()
    raw = w.sym_bytes("raw", length)
    what, disc, size = KINDS[kind]
    if seeds is not None:
        st.pc.append(ULE(bv(unpack(raw[17:21]), 32), B(seeds, 32)))
    c.note("%s reader on every string of %s bytes%s" % (
        what, length, "" if seeds is None else " announcing at most %d seeds" % seeds))
    for t in c.kern(w, st, how, raw):
        if t.result[0] == "ok":
            c.claim(t, "only its own kind is read", T(False) if length < 8 else same_bytes(raw[:8], u(disc, 8)))
            if size:
                c.claim(t, "only its own size is read", T(length == size))
                c.claim(t, "the fields are the bytes", same_bytes(t.tags["out"], raw[8:]))
            o = t.tags["out"]
            if kind == 22:
                # last 8, undelegatable 1, payer 32, seeds
                n = o[41]
                want = raw[:8] + list(o[:9]) + list(u(n, 4)) + list(o[42:]) + list(o[9:41])
                c.claim(t, "the bytes are exactly the fields", same_bytes(raw, want))
            if kind == 23:
                n = (length - 12) // 32
                c.claim(t, "only a whole number of entries is read", T(length == 12 + 32 * n))
                c.claim(t, "the count is the number of entries", same_bytes(raw[8:12], u(n, 4)))
                isin = lambda y, s: lor([eq(y, z, 256) for z in s])
                ent = [unpack(raw[12 + 32 * k:44 + 32 * k]) for k in range(n)]
                got = [unpack(o[1 + 32 * k:33 + 32 * k]) for k in range((len(o) - 1) // 32)]
                c.claim(t, "the entries are the stored ones", land([isin(y, got) for y in ent] + [isin(y, ent) for y in got]))
        else:
            c.claim(t, "reading never crashes", T(t.result[0] == "err"),
                    what="reading %d bytes as a %s crashes (%s)" % (length, what, t.result))
            if size and length == size:
                c.never(t, "a well-formed account is readable", same_bytes(raw[:8], u(disc, 8)))


def sized(c, how, lo, hi, seeds=None):
    for n in range(lo, hi):
        rejects(c, how, n, seeds)


each("C21", [dict(how=h, lo=lo, hi=lo + 35) for h in (201, 202, 211, 212) for lo in (0, 35, 70)])(sized)
each("C21", [dict(how=h, lo=lo, hi=lo + 50) for h in (201, 202, 211, 212) for lo in (105, 155)], "thorough")(sized)
each("C21", [dict(how=231, lo=0, hi=46), dict(how=231, lo=75, hi=78), dict(how=221, lo=0, hi=22),
             dict(how=221, lo=52, hi=55, seeds=1), dict(how=221, lo=56, hi=59, seeds=1)])(sized)
each("C21", [dict(how=221, lo=n, hi=n + 2) for n in range(22, 44, 2)] + [dict(how=221, lo=n, hi=n + 3, seeds=2) for n in range(50, 68, 3)] + [dict(how=231, lo=46, hi=75), dict(how=231, lo=78, hi=110)], "thorough")(sized)
