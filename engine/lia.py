"""Exact integer encoding of the linear 64-bit part of a path condition.

Bit-blasting is slow at showing that sums and differences of balances do not
wrap.  Every 64-bit linear term is represented exactly as an integer (the
polynomial minus 2^64 times an integer wrap count); whatever is not linear
becomes an unconstrained atom, so the encoding over-approximates the path
condition and its "unsat" is a proof.  "sat" decides nothing here.
"""
import z3

RAW = {}      # id of a simplified comparison -> (simplified, comparison as executed)
LIMIT = 80    # bits


def note(simplified, raw):
    if not isinstance(simplified, int) and not simplified.eq(raw):
        RAW[simplified.get_id()] = (simplified, raw)


class Lia:
    def __init__(s):
        s.t = {}      # term id -> (term, Int, [constraints])
        s.c = {}      # cond id -> (cond, Bool, [constraints], arithmetic?)
        s.w = {}
        s.n = 0
        s.queries = 0
        s.keys = False    # also reason about equality and byte-wise order of addresses
        s.hits = 0

    def _int(s, w, side):
        s.n += 1
        v = z3.Int("n%d" % s.n)
        side.append(v >= 0)
        side.append(v < (1 << w))
        return v

    def term(s, e):
        h = s.t.get(e.get_id())
        if h is not None and h[0].eq(e):
            return h[1], h[2]
        side = []
        v = s._term(e, side)
        s.t[e.get_id()] = (e, v, side)
        return v, side

    def _sub(s, e, side):
        v, sd = s.term(e)
        side += sd
        return v

    def _term(s, e, side):
        w = e.size()
        if z3.is_bv_value(e):
            return z3.IntVal(e.as_long())
        k = e.decl().kind()
        if w <= LIMIT:
            if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BMUL, z3.Z3_OP_BNEG, z3.Z3_OP_BNOT):
                p = s._poly(e, 1, side)
                if p is not None:
                    r = s._int(w, side)
                    s.n += 1
                    q = z3.Int("k%d" % s.n)
                    side.append(z3.Sum(p) - (1 << w) * q == r)
                    return r
            if k == z3.Z3_OP_ZERO_EXT:
                return s._sub(e.arg(0), side)
            if k == z3.Z3_OP_CONCAT and all(z3.is_bv_value(e.arg(j)) and e.arg(j).as_long() == 0
                                            for j in range(e.num_args() - 1)):
                return s._sub(e.arg(e.num_args() - 1), side)
            if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and \
                    z3.is_bv_value(e.arg(1)) and e.arg(1).as_long():
                c = e.arg(1).as_long()
                num = z3.simplify(e.arg(0))
                x = s._sub(num, side)
                # quotient and remainder of one division share their variables
                key = ("div", num.get_id(), c)
                h = s.t.get(key)
                if h is None:
                    sd = []
                    q, r = s._int(w, sd), s._int(w, sd)
                    sd += [x == q * c + r, r < c]
                    h = s.t[key] = (num, (q, r), sd)
                side += h[2]
                return h[1][0] if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else h[1][1]
            if k in (z3.Z3_OP_BOR, z3.Z3_OP_BAND):
                r = s._int(w, side)
                for a in e.children():
                    x = s._sub(a, side)
                    side.append(r >= x if k == z3.Z3_OP_BOR else r <= x)
                return r
            if k == z3.Z3_OP_EXTRACT and e.arg(0).size() <= LIMIT:
                # x = high * 2^(h+1) + r * 2^l + low
                h, l = e.params()
                x = s._sub(e.arg(0), side)
                r = s._int(w, side)
                hi, lo = s._int(e.arg(0).size() - h - 1, side), s._int(l, side)
                side.append(x == hi * (1 << (h + 1)) + r * (1 << l) + lo)
                return r
            if k == z3.Z3_OP_ITE:
                c, sd, _ = s.cond(e.arg(0))
                side += sd
                return z3.If(c, s._sub(e.arg(1), side), s._sub(e.arg(2), side))
        return s._int(w, side)

    def _poly(s, e, c, side):
        """summands of c * e, or None"""
        w = e.size()
        if z3.is_bv_value(e):
            v = e.as_long()
            if v >> (w - 1):
                v -= 1 << w
            return [z3.IntVal(v * c)]
        k = e.decl().kind()
        if k == z3.Z3_OP_BADD:
            r = []
            for j in range(e.num_args()):
                r += s._poly(e.arg(j), c, side)
            return r
        if k == z3.Z3_OP_BSUB:
            r = s._poly(e.arg(0), c, side)
            for j in range(1, e.num_args()):
                r = r + s._poly(e.arg(j), -c, side)
            return r
        if k == z3.Z3_OP_BNEG:
            return s._poly(e.arg(0), -c, side)
        if k == z3.Z3_OP_BNOT:
            return s._poly(e.arg(0), -c, side) + [z3.IntVal(-c)]
        if k == z3.Z3_OP_BMUL and e.num_args() == 2:
            for a, b in ((0, 1), (1, 0)):
                if z3.is_bv_value(e.arg(a)):
                    v = e.arg(a).as_long()
                    if v >> (w - 1):
                        v -= 1 << w
                    return s._poly(e.arg(b), c * v, side)
            side_t = s._int(w, side)
            s.t[e.get_id()] = (e, side_t, [side_t >= 0, side_t < (1 << w)])
            return [c * side_t]
        v, sd = s.term(e)
        side += sd
        return [c * v]

    def cond(s, e):
        """-> (Bool, side constraints, says something arithmetic)"""
        h = s.c.get(e.get_id())
        if h is not None and h[0].eq(e):
            return h[1:]
        r = s._cond(e)
        s.c[e.get_id()] = (e,) + r
        return r

    def whole(s, e):
        """-> (the condition with all its side constraints as one formula, arithmetic?)"""
        h = s.w.get(e.get_id())
        if h is not None and h[0].eq(e):
            return h[1:]
        b, side, ar = s.cond(e)
        seen, xs = set(), [b]
        for x in side:
            if x.get_id() not in seen:
                seen.add(x.get_id())
                xs.append(x)
        r = (z3.And(xs) if len(xs) > 1 else b, ar)
        s.w[e.get_id()] = (e,) + r
        return r

    def _cond(s, e):
        raw = RAW.get(e.get_id())
        if raw is not None and raw[0].eq(e):
            return s._cond1(raw[1])
        return s._cond1(e)

    def _cond1(s, e):
        if z3.is_true(e) or z3.is_false(e):
            return (e, [], False)
        k = e.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
            xs = [s.cond(a) for a in e.children()]
            b = [x[0] for x in xs]
            side = [y for x in xs for y in x[1]]
            r = z3.And(b) if k == z3.Z3_OP_AND else z3.Or(b) if k == z3.Z3_OP_OR else z3.Not(b[0])
            return (r, side, any(x[2] for x in xs))
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT) or \
                (k == z3.Z3_OP_EQ and z3.is_bv(e.arg(0))):
            if e.arg(0).size() <= LIMIT:
                side = []
                a, b = s._sub(e.arg(0), side), s._sub(e.arg(1), side)
                r = {z3.Z3_OP_ULEQ: lambda: a <= b, z3.Z3_OP_ULT: lambda: a < b,
                     z3.Z3_OP_UGEQ: lambda: a >= b, z3.Z3_OP_UGT: lambda: a > b,
                     z3.Z3_OP_EQ: lambda: a == b}[k]()
                return (r, side, s.keys or e.arg(0).size() > 8)
            elif s.keys and e.arg(0).size() % 8 == 0:
                x, y = e.children()
                a, b = s._reversed(x), s._reversed(y)
                if a is not None and b is not None:
                    r = {z3.Z3_OP_ULEQ: lambda: a <= b, z3.Z3_OP_ULT: lambda: a < b,
                         z3.Z3_OP_UGEQ: lambda: a >= b, z3.Z3_OP_UGT: lambda: a > b,
                         z3.Z3_OP_EQ: lambda: a == b}[k]()
                    return (r, [], True)
                if k == z3.Z3_OP_EQ:
                    return (s._rank(x) == s._rank(y), [], True)
        s.n += 1
        return (z3.Bool("b%d" % s.n), [], False)

    def _rank(s, e):
        """the value of e with its bytes reversed, as an unbounded integer atom"""
        if z3.is_bv_value(e):
            return z3.IntVal(int.from_bytes(e.as_long().to_bytes(e.size() // 8, "little"), "big"))
        key = ("rank", e.get_id())
        h = s.t.get(key)
        if h is None or not h[0].eq(e):
            s.n += 1
            h = s.t[key] = (e, z3.Int("r%d" % s.n), [])
        return h[1]

    def _reversed(s, e):
        """the value of e where it is the byte reversal of some term, as its rank"""
        if z3.is_bv_value(e):
            return z3.IntVal(e.as_long())
        w = e.size()
        if e.decl().kind() == z3.Z3_OP_CONCAT:
            e = z3.simplify(e)
        if e.decl().kind() != z3.Z3_OP_CONCAT or e.num_args() != w // 8:
            return None
        base = None
        for j, x in enumerate(e.children()):
            if x.decl().kind() != z3.Z3_OP_EXTRACT or x.params() != [8 * j + 7, 8 * j]:
                return None
            if base is None:
                base = x.arg(0)
            if not base.eq(x.arg(0)):
                return None
        return s._rank(base) if base.size() == w else None

    def refutes(s, pc, conds, timeout=2000):
        """True: pc and conds have no common model"""
        sol = z3.SolverFor("QF_LIA")
        sol.set("timeout", timeout)
        arith = False
        for c in conds:
            b, ar = s.whole(c)
            arith |= ar
            sol.add(b)
        if not arith:
            return False
        s.queries += 1
        for c in pc:
            b, ar = s.whole(c)
            if ar:
                sol.add(b)
        if sol.check() == z3.unsat:
            s.hits += 1
            return True
        return False
