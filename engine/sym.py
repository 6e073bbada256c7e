"""Symbolic execution of the IR: every path of the real code, with z3 deciding
which branches are feasible.

Values are Python ints (concrete) or z3 expressions; i1 is 0/1 or a z3 Bool;
memory is a set of byte-cell objects addressed by concrete 64-bit pointers
(object id << 32 | offset).
"""
import sys, time
import z3
from ir import Module, zero
import lia

M64 = (1 << 64) - 1


class EngineError(Exception):
    pass


class GaveUp(EngineError):
    """a query the solver cannot decide"""


class PathEnd(Exception):
    """the current path ends here"""

    def __init__(s, kind, why=None):
        s.kind, s.why = kind, why


class Obj:
    __slots__ = ("cells", "owner", "live", "name", "fill")

    def __init__(s, cells, owner, name=""):
        s.cells, s.owner, s.live, s.name = cells, owner, True, name


class Frame:
    __slots__ = ("f", "regs", "blk", "ip", "dest", "nxt", "allocas")

    def __init__(s, f, regs, blk, dest, nxt):
        s.f, s.regs, s.blk, s.ip, s.dest, s.nxt = f, regs, blk, 0, dest, nxt
        s.allocas = []


class Token:
    __slots__ = ()


class State:
    __slots__ = ("frames", "mem", "tok", "pc", "pdas", "curve", "events", "model", "result",
                 "nsym", "syms", "steps", "tags", "choices", "lits", "nlits", "keep", "folded")

    def fork(s):
        n = State()
        n.folded = s.folded
        n.frames = []
        for f in s.frames:
            g = Frame(f.f, list(f.regs), f.blk, f.dest, f.nxt)
            g.ip = f.ip
            g.allocas = list(f.allocas)
            n.frames.append(g)
        n.mem = dict(s.mem)
        s.tok, n.tok = Token2(), Token2()
        n.pc = list(s.pc)
        n.pdas = list(s.pdas)
        n.curve = list(s.curve)
        n.events = list(s.events)
        n.model = s.model
        n.result = s.result
        n.nsym = s.nsym
        n.syms = list(s.syms)
        n.steps = s.steps
        n.tags = dict(s.tags)
        n.choices = list(s.choices)
        n.lits = dict(s.lits)
        n.nlits = s.nlits
        n.keep = s.keep
        return n


class Token2(object):
    __slots__ = ()


def is_c(v):
    return type(v) is int


def bv(v, n):
    return z3.BitVecVal(v, n) if type(v) is int else v


def as_bool(v):
    if type(v) is int:
        return z3.BoolVal(bool(v))
    if z3.is_bool(v):
        return v
    return v != 0


def tobv(v, n):
    """an i1 Bool or a BV/int as an n-bit vector"""
    if type(v) is int:
        return z3.BitVecVal(v, n)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v


def lit(e):
    """simplify; a literal becomes an int"""
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


class Engine:
    def __init__(s, module, seed=0, log=None):
        s.m = module
        s.solver = z3.SimpleSolver()
        s.solver.set("random_seed", seed)
        s.timeout = 60000
        s.solver.set("timeout", s.timeout)
        s.stack = []            # constraints pushed
        s.substs = {}
        s.plains = {}
        FPIN.clear()
        s.queries = 0
        s.lia = lia.Lia()
        s.solver_time = 0.0
        s.paths = 0
        s.forks = 0
        s.steps = 0
        s.max_steps = 12_000_000
        s.funcs_seen = set()
        s.deadline = None
        s.log = log
        s.gaddr = {}
        s.faddr = {}
        s.addrf = {}
        s.base_mem = {}
        s.next_id = 16
        s._globals()

    # ---------------------------------------------------------------- set-up
    def _new_id(s):
        s.next_id += 1
        return s.next_id

    def _globals(s):
        m = s.m
        for n in m.globals:
            s.gaddr[n] = s._new_id() << 32
        for n in list(m.raw) + list(m.decls):
            if n not in s.faddr:
                a = (s._new_id() << 32) | 0
                s.faddr[n] = a
                s.addrf[a] = n
        for n in m.globals:
            try:
                ty, init = m.global_init(n)
            except SyntaxError:
                continue
            cells = [0] * max(1, ty.size)
            if init is not None:
                s._init(cells, 0, ty, init)
            s.base_mem[s.gaddr[n] >> 32] = Obj(cells, None, n)

    def sym_addr(s, name, off=0):
        a = s.gaddr.get(name)
        if a is None:
            a = s.faddr.get(name)
        if a is None:
            raise EngineError("unknown symbol " + name)
        return (a + off) & M64

    def _init(s, cells, o, ty, v):
        k = v[0]
        if k == "bytes":
            cells[o:o + len(v[1])] = list(v[1])
        elif k == "g":
            a = s.sym_addr(v[1], v[2])
            cells[o:o + 8] = list(a.to_bytes(8, "little"))
        elif k == "agg":
            if ty.k in ("s", "ps"):
                for off, (t, x) in zip(ty.offs, v[1]):
                    s._init(cells, o + off, t, x)
            else:
                for i, (t, x) in enumerate(v[1]):
                    s._init(cells, o + i * t.size, t, x)
        elif k == "c":
            if type(v[1]) is int:
                cells[o:o + ty.size] = list(v[1].to_bytes(ty.size, "little"))

    def state(s):
        st = State()
        st.folded = False
        st.frames, st.mem, st.tok = [], dict(s.base_mem), Token2()
        st.pc, st.pdas, st.curve, st.events = [], [], [], []
        st.model = None
        st.result = None
        st.nsym = 0
        st.syms = []
        st.steps = 0
        st.tags = {}
        st.choices = []
        st.lits, st.nlits, st.keep = {}, 0, None
        return st

    # ---------------------------------------------------------------- memory
    def alloc(s, st, size, name="", zero_=True):
        i = s._new_id()
        st.mem[i] = Obj([0] * size, st.tok, name)
        return i << 32

    def _w(s, st, i):
        o = st.mem.get(i)
        if o is None or not o.live:
            raise EngineError("write to dead object %x" % i)
        if o.owner is not st.tok:
            n = Obj(list(o.cells), st.tok, o.name)
            st.mem[i] = n
            return n
        return o

    def load(s, st, addr, n):
        """n bytes, little endian -> int or BV(8n)"""
        i, o = addr >> 32, addr & 0xffffffff
        ob = st.mem.get(i)
        if ob is None or not ob.live or o + n > len(ob.cells):
            if n == 0:
                return 0
            raise EngineError("load of %d bytes at %x (%s, size %s)" % (
                n, addr, ob and ob.name, ob and len(ob.cells)))
        return unpack(ob.cells[o:o + n])

    def store(s, st, addr, n, v):
        if n == 0:
            return
        i, o = addr >> 32, addr & 0xffffffff
        ob = s._w(st, i)
        if o + n > len(ob.cells):
            raise EngineError("store of %d bytes at %x (%s, size %d)" % (n, addr, ob.name, len(ob.cells)))
        ob.cells[o:o + n] = pack(v, n)

    def cells(s, st, addr, n):
        if n == 0:
            return []
        i, o = addr >> 32, addr & 0xffffffff
        ob = st.mem.get(i)
        if ob is None or not ob.live or o + n > len(ob.cells):
            raise EngineError("read of %d bytes at %x (%s)" % (n, addr, ob and (ob.name, len(ob.cells))))
        return ob.cells[o:o + n]

    def put(s, st, addr, cells):
        n = len(cells)
        if n == 0:
            return
        i, o = addr >> 32, addr & 0xffffffff
        ob = s._w(st, i)
        if o + n > len(ob.cells):
            raise EngineError("write of %d bytes at %x (%s, size %d)" % (n, addr, ob.name, len(ob.cells)))
        ob.cells[o:o + n] = cells

    # ---------------------------------------------------------------- solver
    def _sync(s, st):
        pc, stack = st.pc, s.stack
        k = 0
        n = min(len(pc), len(stack))
        while k < n and pc[k] is stack[k]:
            k += 1
        if len(stack) > k:
            s.solver.pop(len(stack) - k)
            del stack[k:]
        for c in pc[k:]:
            s.solver.push()
            s.solver.add(s.plain(c))
            stack.append(c)

    def check(s, st, *conds):
        """sat/unsat of pc and conds; a model of the last sat answer is kept"""
        if s.deadline and time.time() > s.deadline:
            raise EngineError("time budget exhausted")
        t = time.time()
        s.queries += 1
        s._sync(st)
        if conds:
            s.solver.push()
            s.solver.add(*[s.plain(c) for c in conds])
        r = s.solver.check()
        exact = not FPIN or st.folded
        if r == z3.sat and exact:
            mod = s.solver.model()
        elif r == z3.sat:
            # possible if floating point results were arbitrary
            mod = s.guess(st, conds)
            r = z3.unknown if mod is None else r
        if r == z3.unknown:
            # once more, from scratch, with the tactic-based solver
            s2 = z3.SolverFor("QF_BV" if exact else "QF_FPBV")
            s2.set("timeout", 3 * s.timeout if exact else 10000)
            s2.add(*st.pc)
            s2.add(*conds)
            r = s2.check()
            mod = s2.model() if r == z3.sat else None
        if conds:
            s.solver.pop()
        s.solver_time += time.time() - t
        if r == z3.unknown:
            raise GaveUp("solver gave up: " + s.solver.reason_unknown())
        s.last_model = mod if r == z3.sat else None
        return r == z3.sat

    def possible(s, st, *conds):
        """check, where a path that cannot be excluded may be followed"""
        try:
            return s.check(st, *conds)
        except GaveUp:
            if not FPIN:
                raise
            s.last_model = None
            return True

    def plain(s, c):
        """c with fresh variables for what is computed from floating point numbers"""
        if not FPIN:
            return c
        k = c.get_id()
        r = s.plains.get(k)
        if r is None:
            if c.num_args() and any(z3.is_fp(x) for x in c.children()) and not z3.is_fp(c):
                r = z3.FreshConst(c.sort(), "fp")
            elif c.num_args():
                r = c.decl()(*[s.plain(x) for x in c.children()]) if not z3.is_quantifier(c) else c
                r = c if r.eq(c) else r
            else:
                r = c
            s.plains[k] = (r, c)
            return r
        return r[0]

    def guess(s, st, conds):
        """a model in which the integers turned into floating point have one of a few values"""
        for g in GUESS:
            pairs = [(x, z3.BitVecVal(g + 11 * i, x.size())) for i, x in enumerate(FPIN)]
            s2 = z3.SimpleSolver()
            s2.set("timeout", 4000)
            s2.add(*[x == y for x, y in pairs])
            for c in list(st.pc) + list(conds):
                s2.add(s.subst(g, c, pairs))
            if s2.check() == z3.sat:
                return s2.model()
        return None

    def subst(s, g, c, pairs):
        k = (g, len(pairs), c.get_id())
        r = s.substs.get(k)
        if r is None:
            r = s.substs[k] = (z3.simplify(z3.substitute(c, *pairs)), c)
        return r[0]

    def add(s, st, c):
        """assume c; returns False if the path becomes infeasible"""
        c = lit(c)
        if is_c(c) and c:
            return True
        if is_c(c):
            return False
        if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)):
            st.pc.append(c)
            return True
        if not s.possible(st, c):
            return False
        st.model = s.last_model
        st.pc.append(c)
        return True

    def feasible(s, st, c):
        if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)):
            return True
        return s.possible(st, c)

    def known(s, st, c):
        """truth of c if it, or its negation, is literally on the path"""
        neg = z3.is_not(c)
        a = c.arg(0) if neg else c
        h = st.lits
        n = st.nlits
        pc = st.pc
        while n < len(pc):
            x = pc[n]
            n += 1
            if z3.is_not(x):
                h[x.arg(0).get_id()] = 0
            else:
                h[x.get_id()] = 1
        st.nlits = n
        v = h.get(a.get_id())
        if v is None:
            return None
        return 1 - v if neg else v

    def branch(s, st, c):
        """-> list of (state, truth value); st itself is reused for the first"""
        if is_c(c):
            return [(st, c)]
        c = lit(as_bool(c))
        if is_c(c):
            return [(st, c)]
        k = s.known(st, c)
        if k is not None:
            return [(st, k)]
        if st.model is None:
            if not s.possible(st):
                raise PathEnd("infeasible")
            st.model = s.last_model
        nc = z3.Not(c)
        if st.model is None:
            out = []
            for x, v in ((c, 1), (nc, 0)):
                if s.possible(st, x):
                    out.append((x, v, s.last_model))
            if not out:
                raise PathEnd("infeasible")
            res = []
            for k, (x, v, mod) in enumerate(out):
                b = st if k == len(out) - 1 else st.fork()
                b.pc.append(x)
                b.model = mod
                res.append((b, v))
            return res
        v = z3.is_true(st.model.eval(c, model_completion=True))
        other = nc if v else c
        if not s.lia.refutes(st.pc, [other]) and s.possible(st, other):
            om = s.last_model
            s.forks += 1
            b = st.fork()
            st.pc.append(c if v else nc)
            b.pc.append(other)
            b.model = om
            return [(st, int(v)), (b, int(not v))]
        # implied: no need to add it
        neg = z3.is_not(c)
        a = c.arg(0) if neg else c
        st.keep = (st.keep, a)       # the entry is valid as long as the term exists
        st.lits[a.get_id()] = 1 - int(v) if neg else int(v)
        return [(st, int(v))]

    def values(s, st, e, limit):
        """all feasible values of e -> [(state, int)] (forks)"""
        if is_c(e):
            return [(st, e)]
        e = lit(e)
        if is_c(e):
            return [(st, e)]
        vals, block = [], []
        while True:
            if not s.check(st, *block):
                break
            v = s.last_model.eval(e, model_completion=True).as_long()
            vals.append((v, s.last_model))
            if len(vals) > limit:
                raise EngineError("more than %d values for %s" % (limit, str(e)[:200]))
            block.append(e != v)
        out = []
        for k, (v, mod) in enumerate(vals):
            b = st if k == len(vals) - 1 else st.fork()
            if len(vals) > 1:
                b.pc.append(e == v)
                b.model = mod
            out.append((b, v))
        s.forks += len(vals) - 1
        return out

    def fresh(s, st, name, n):
        st.nsym += 1
        v = z3.BitVec("%s_%d" % (name, st.nsym), n)
        return v

    # ---------------------------------------------------------------- running
    def call(s, st, name, args):
        f = s.m.func(name)
        if f is None:
            raise EngineError("no function " + name)
        regs = [None] * f.nregs
        for p, a in zip(f.params, args):
            regs[p] = a
        st.frames.append(Frame(f, regs, f.blocks[f.order[0]], None, None))

    def run(s, st):
        """depth-first exploration; yields finished states with .result =
        ('ret', value) | ('panic', why) | ('abort', code)"""
        work = [st]
        while work:
            cur = work.pop()
            if not cur.frames:
                s.paths += 1
                yield cur
                continue
            try:
                more = s._go(cur)
            except PathEnd as e:
                if e.kind == "infeasible":
                    continue
                cur.result = (e.kind, e.why)
                cur.frames = []
                s.paths += 1
                yield cur
                continue
            except EngineError as e:
                fr = cur.frames[-1] if cur.frames else None
                raise EngineError("%s\n  in %s" % (e, " <- ".join(x.f.name[:90] for x in reversed(cur.frames[-6:])))) from e
            if more is None:
                s.paths += 1
                yield cur
            else:
                work.extend(more)

    def _go(s, st):
        """run until the path ends (None) or forks (list of states)"""
        while True:
            fr = st.frames[-1]
            regs = fr.regs
            ins = fr.blk.ins
            n = len(ins)
            ip = fr.ip
            while True:
                i = ins[ip]
                ip += 1
                s.steps += 1
                op = i[0]
                if op == "load":
                    p = s._op(regs, i[3])
                    if type(p) is not int:
                        return s._sym_ptr(st, fr, ip, i[3], p)
                    regs[i[1]] = s._load_ty(st, i[2], p)
                elif op == "store":
                    p = s._op(regs, i[3])
                    if type(p) is not int:
                        return s._sym_ptr(st, fr, ip, i[3], p)
                    s._store_ty(st, i[1], p, s._op(regs, i[2]))
                elif op == "gep":
                    b = s._op(regs, i[2])
                    off = i[3]
                    for iv, sc, w in i[4]:
                        x = s._op(regs, iv)
                        if type(x) is int:
                            if w < 64 and x >> (w - 1):
                                x -= 1 << w
                            off += x * sc
                        else:
                            if w < 64:
                                x = z3.SignExt(64 - w, x)
                            off = (z3.BitVecVal(off & M64, 64) if type(off) is int else off) + x * z3.BitVecVal(sc, 64)
                    if type(b) is int and type(off) is int:
                        regs[i[1]] = (b + off) & M64
                    else:
                        regs[i[1]] = lit(bv(b, 64) + (bv(off & M64, 64) if type(off) is int else off))
                elif op == "call":
                    r = s._call(st, fr, ip, i)
                    if r is None:
                        continue
                    if r is True:      # new frame
                        break
                    return r
                elif op == "br":
                    c = s._op(regs, i[1])
                    if type(c) is not int:
                        fr.ip = ip - 1
                        br = s.branch(st, c)
                        out = []
                        for b, v in br:
                            s._jump(b.frames[-1], i[2] if v else i[3])
                            out.append(b)
                        if len(out) == 1:
                            break
                        return out
                    s._jump(fr, i[2] if c else i[3])
                    break
                elif op == "jmp":
                    s._jump(fr, i[1])
                    break
                elif op == "icmp":
                    regs[i[1]] = icmp(i[2], i[3], s._op(regs, i[4]), s._op(regs, i[5]))
                elif op == "fcmp":
                    regs[i[1]] = fcmp(i[2], i[3], s._op(regs, i[4]), s._op(regs, i[5]))
                elif op == "bin":
                    regs[i[1]] = binop(i[2], i[3], s._op(regs, i[4]), s._op(regs, i[5]))
                elif op == "cast":
                    regs[i[1]] = cast(i[2], i[3], s._op(regs, i[4]), i[5])
                elif op == "alloca":
                    k = s._op(regs, i[3])
                    if type(k) is not int:
                        raise EngineError("symbolic alloca")
                    a = s.alloc(st, i[2] * k, "alloca")
                    fr.allocas.append(a >> 32)
                    regs[i[1]] = a
                elif op == "select":
                    c = s._op(regs, i[2])
                    a, b = s._op(regs, i[3]), s._op(regs, i[4])
                    if type(c) is int:
                        regs[i[1]] = a if c else b
                    else:
                        r = select(c, a, b, i[5])
                        if r is NotImplemented:
                            fr.ip = ip - 1
                            out = []
                            for t, v in s.branch(st, c):
                                g = t.frames[-1]
                                g.regs[i[1]] = a if v else b
                                g.ip = ip
                                out.append(t)
                            return out
                        regs[i[1]] = r
                elif op == "switch":
                    v = s._op(regs, i[1])
                    if type(v) is int:
                        for c, l in i[4]:
                            if c == v:
                                break
                        else:
                            l = i[3]
                        s._jump(fr, l)
                        break
                    fr.ip = ip - 1
                    if z3.is_bool(v):
                        v = tobv(v, i[2])
                    out, cur = [], st
                    # group the cases by their target
                    tgt = {}
                    for c, l in i[4]:
                        tgt.setdefault(l, []).append(c)
                    for l, cs in tgt.items():
                        if cur is None:
                            break
                        cond = z3.Or([v == z3.BitVecVal(c, i[2]) for c in cs])
                        nxt = None
                        for t, val in s.branch(cur, cond):
                            if val:
                                s._jump(t.frames[-1], l)
                                out.append(t)
                            else:
                                nxt = t
                        cur = nxt
                    if cur is not None:
                        s._jump(cur.frames[-1], i[3])
                        out.append(cur)
                    return out
                elif op == "ret":
                    v = s._op(regs, i[1]) if i[1] is not None else None
                    for a in fr.allocas:
                        st.mem.pop(a, None)
                    st.frames.pop()
                    if not st.frames:
                        st.result = ("ret", v)
                        return None
                    up = st.frames[-1]
                    if fr.dest is not None:
                        up.regs[fr.dest] = v
                    if fr.nxt is not None:
                        s._jump(up, fr.nxt)
                    break
                elif op == "extractvalue":
                    v = s._op(regs, i[2])
                    for k in i[3]:
                        v = v[k]
                    regs[i[1]] = v
                elif op == "insertvalue":
                    regs[i[1]] = insert(s._op(regs, i[2]), s._op(regs, i[3]), i[4])
                elif op == "copy":
                    regs[i[1]] = s._op(regs, i[2])
                elif op == "rmw":
                    a = s._op(regs, i[4])
                    v = s._op(regs, i[5])
                    old = s._load_ty(st, i[3], a)
                    if i[2] == "xchg":
                        new = v
                    else:
                        new = binop({"add": "add", "sub": "sub", "or": "or", "and": "and"}[i[2]], i[3].n, old, v)
                    s._store_ty(st, i[3], a, new)
                    regs[i[1]] = old
                elif op == "cmpxchg":
                    a = s._op(regs, i[3])
                    c, nw = s._op(regs, i[4]), s._op(regs, i[5])
                    old = s._load_ty(st, i[2], a)
                    ok = icmp("eq", i[2].n if i[2].k == "i" else 64, old, c)
                    if type(ok) is not int:
                        raise EngineError("symbolic cmpxchg")
                    if ok:
                        s._store_ty(st, i[2], a, nw)
                    regs[i[1]] = (old, ok)
                elif op == "unreachable":
                    raise EngineError("unreachable reached")
                else:
                    raise EngineError("unsupported instruction: %r" % (i,))
            if s.steps > s.max_steps:
                raise EngineError("step budget exhausted")

    def _op(s, regs, o):
        k = o[0]
        if k == "r":
            return regs[o[1]]
        if k == "c":
            return o[1]
        if k == "g":
            return s.sym_addr(o[1], o[2])
        if k == "agg":
            return tuple(s._op(regs, x) for x in o[1])
        raise EngineError("operand %r" % (o,))

    def _jump(s, fr, label):
        b = fr.f.blocks[label]
        if b.phis:
            src = fr.blk.name
            regs = fr.regs
            vals = []
            for ph in b.phis:
                o = ph[2].get(src)
                if o is None and src == "%entry":
                    # the unnamed entry block is numbered after the parameters
                    c = [k for k in ph[2] if k not in fr.f.blocks]
                    o = ph[2][c[0]]
                vals.append(s._op(regs, o))
            for ph, v in zip(b.phis, vals):
                regs[ph[1]] = v
        fr.blk = b
        fr.ip = 0

    def _sym_ptr(s, st, fr, ip, o, p):
        """a symbolic address: one path per feasible value"""
        fr.ip = ip - 1
        out = []
        for t, v in s.values(st, p, 300):
            if o[0] != "r":
                raise EngineError("symbolic constant address")
            t.frames[-1].regs[o[1]] = v
            out.append(t)
        return out

    def _load_ty(s, st, ty, p):
        k = ty.k
        if k == "i":
            v = s.load(st, p, ty.size)
            if ty.n == 1:
                if type(v) is int:
                    return v & 1
                return lit(z3.Extract(0, 0, v) == 1)
            if ty.n != 8 * ty.size:
                return v & ((1 << ty.n) - 1) if type(v) is int else z3.Extract(ty.n - 1, 0, v)
            return v
        if k == "p":
            return s.load(st, p, 8)
        if k == "f":
            return s.load(st, p, ty.size)
        if k in ("s", "ps"):
            return tuple(s._load_ty(st, t, p + o) for t, o in zip(ty.el, ty.offs))
        if k in ("a", "vec"):
            return tuple(s._load_ty(st, ty.el, p + j * ty.el.size) for j in range(ty.n))
        raise EngineError("load type %r" % ty)

    def _store_ty(s, st, ty, p, v):
        k = ty.k
        if k == "i":
            if ty.n == 1:
                v = v if type(v) is int else tobv(v, 8)
            elif ty.n != 8 * ty.size and type(v) is not int:
                v = z3.ZeroExt(8 * ty.size - ty.n, v)
            s.store(st, p, ty.size, v)
        elif k == "p":
            s.store(st, p, 8, v)
        elif k == "f":
            s.store(st, p, ty.size, v)
        elif k in ("s", "ps"):
            for t, o, x in zip(ty.el, ty.offs, v):
                s._store_ty(st, t, p + o, x)
        elif k in ("a", "vec"):
            for j in range(ty.n):
                s._store_ty(st, ty.el, p + j * ty.el.size, v[j])
        else:
            raise EngineError("store type %r" % ty)

    # ---------------------------------------------------------------- calls
    def _call(s, st, fr, ip, i):
        _, dest, callee, args, nxt, rt = i
        regs = fr.regs
        if callee[0] == "g":
            name = callee[1]
        else:
            a = s._op(regs, callee)
            if type(a) is not int:
                return s._sym_ptr(st, fr, ip, callee, a)
            name = s.addrf.get(a)
            if name is None:
                raise EngineError("call of %x" % a)
        f = s.m.func(name)
        if f is not None:
            s.funcs_seen.add(name)
            r = [None] * f.nregs
            for p, a in zip(f.params, args):
                r[p] = s._op(regs, a)
            fr.ip = ip
            st.frames.append(Frame(f, r, f.blocks[f.order[0]], dest, nxt))
            if len(st.frames) > 400:
                raise EngineError("call depth")
            return True
        a = [s._op(regs, x) for x in args]
        h = BUILTIN.get(name)
        if h is None and name.startswith("llvm."):
            h = intrinsic(name)
        if h is None:
            for pre, fn in PREFIX:
                if name.startswith(pre):
                    h = fn
                    break
        if h is None:
            raise EngineError("external function " + name)
        r = h(s, st, a)
        if type(r) is Fork:
            # [(state, value)] or "retry with concretised argument"
            fr.ip = ip - 1
            out = []
            for t, v in r.alts:
                if type(v) is tuple and v and v[0] == "abort":
                    t.result = v
                    t.frames = []
                    out.append(t)
                    continue
                g = t.frames[-1]
                if r.retry is not None:
                    o = args[r.retry]
                    if o[0] != "r":
                        raise EngineError("symbolic constant")
                    g.regs[o[1]] = v
                else:
                    g.ip = ip
                    if dest is not None:
                        g.regs[dest] = v
                    if nxt is not None:
                        s._jump(g, nxt)
                out.append(t)
            return out
        if dest is not None:
            regs[dest] = r
        if nxt is not None:
            s._jump(fr, nxt)
            return True
        return None


class Fork:
    def __init__(s, alts, retry=None):
        s.alts, s.retry = alts, retry


# ---------------------------------------------------------------- bytes
def unpack(c):
    """list of byte cells (LE) -> int or BV"""
    n = len(c)
    for x in c:
        if type(x) is not int:
            break
    else:
        return int.from_bytes(bytes(c), "little")
    parts = []      # low to high
    j = 0
    while j < n:
        x = c[j]
        if type(x) is int:
            k = j
            while k < n and type(c[k]) is int:
                k += 1
            parts.append(z3.BitVecVal(int.from_bytes(bytes(c[j:k]), "little"), 8 * (k - j)))
        else:
            e, b = x
            k = j + 1
            while k < n and type(c[k]) is tuple and c[k][0] is e and c[k][1] == b + (k - j):
                k += 1
            if b == 0 and (k - j) * 8 == e.size():
                parts.append(e)
            else:
                parts.append(z3.Extract(8 * (b + k - j) - 1, 8 * b, e))
        j = k
    if len(parts) == 1:
        return parts[0]
    r = z3.simplify(z3.Concat(*reversed(parts)))
    return r.as_long() if z3.is_bv_value(r) else r


def same_cells(x, y):
    """syntactically the same bytes"""
    for a, b in zip(x, y):
        if a is b:
            continue
        if type(a) is int or type(b) is int:
            if type(a) is type(b) and a == b:
                continue
            return False
        if a[1] != b[1] or not (a[0] is b[0] or a[0].eq(b[0])):
            return False
    return True


def pack(v, n):
    if type(v) is int:
        return list(v.to_bytes(n, "little"))
    if z3.is_bool(v):
        v = tobv(v, 8 * n)
    return [(v, j) for j in range(n)]


CMP = {}        # memcmp results -> (equal, less)


def icmp(pred, n, a, b):
    if n == 32 and type(b) is int and b == 0 and type(a) is not int:
        h = CMP.get(a.get_id())
        if h is not None and h[0].eq(a):
            if pred == "eq":
                return h[1]
            if pred == "ne":
                return lit(z3.Not(as_bool(h[1])))
            if pred == "slt":
                return h[2]
            if pred == "sge":
                return lit(z3.Not(as_bool(h[2])))
            if pred == "sgt":
                return lit(z3.Not(z3.Or(as_bool(h[1]), as_bool(h[2]))))
            if pred == "sle":
                return lit(z3.Or(as_bool(h[1]), as_bool(h[2])))
    if type(a) is int and type(b) is int:
        if pred == "eq":
            return int(a == b)
        if pred == "ne":
            return int(a != b)
        if pred[0] == "s":
            h = 1 << (n - 1)
            a = (a ^ h) - h
            b = (b ^ h) - h
        p = pred[1:]
        return int(a < b if p == "lt" else a <= b if p == "le" else a > b if p == "gt" else a >= b)
    if n == 1:
        x, y = as_bool(a), as_bool(b)
        if pred == "eq":
            return lit(x == y)
        if pred == "ne":
            return lit(z3.Xor(x, y))
        a, b = tobv(a, 1), tobv(b, 1)
    a, b = tobv(a, n), tobv(b, n)
    if pred == "eq":
        r = a == b
    elif pred == "ne":
        r = z3.Not(a == b)
    elif pred == "ult":
        r = z3.ULT(a, b)
    elif pred == "ule":
        r = z3.ULE(a, b)
    elif pred == "ugt":
        r = z3.UGT(a, b)
    elif pred == "uge":
        r = z3.UGE(a, b)
    elif pred == "slt":
        r = a < b
    elif pred == "sle":
        r = a <= b
    elif pred == "sgt":
        r = a > b
    else:
        r = a >= b
    if n >= 128 and pred in ("eq", "ne"):
        w = wide_eq(a, b)
        if w is not None:
            return w if pred == "eq" else lit(z3.Not(as_bool(w)))
    e = lit(r)
    if n == 64 and type(e) is not int:
        lia.note(e, r)
    return e


def wide_eq(a, b):
    """(x0^y0 | x1^y1 | ...) == 0 and (x0^y0) == 0 as equalities of the whole
    values, the form in which everything else compares them"""
    if not (z3.is_bv_value(b) and b.as_long() == 0) or z3.is_bv_value(a):
        return None
    parts = []
    todo = [a]
    while todo:
        e = todo.pop()
        k = e.decl().kind()
        if k == z3.Z3_OP_BOR:
            todo += e.children()
        elif k == z3.Z3_OP_BXOR and e.num_args() == 2:
            parts.append((e.arg(0), e.arg(1)))
        else:
            parts.append((e, z3.BitVecVal(0, e.size())))
    r = z3.And([x == y for x, y in parts]) if len(parts) > 1 else parts[0][0] == parts[0][1]
    if len(parts) > 1:
        # adjacent slices of two values
        def base(e):
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_EXTRACT:
                return e.arg(0), e.params()[1], e.params()[0]
            return None
        fix = []
        for x, y in parts:
            if fix:
                p, q = base(fix[0][0]), base(x)
                if not (p and q and p[0].eq(q[0])) or (base(y) and p[0].eq(base(y)[0]) and not (
                        p and q and p[0].eq(q[0]))):
                    x, y = y, x
            elif base(x) is None:
                x, y = y, x
            fix.append((x, y))
        if all(base(x) for x, y in fix) and all(base(x)[0].eq(base(fix[0][0])[0]) for x, y in fix):
            fix.sort(key=lambda t: -base(t[0])[1])
            lo, ok = None, True
            for x, y in fix:
                if lo is not None and base(x)[2] != lo - 1:
                    ok = False
                lo = base(x)[1]
            if ok:
                r = z3.simplify(z3.Concat(*[x for x, y in fix])) == z3.simplify(z3.Concat(*[y for x, y in fix]))
    return lit(r)


def fsort(n):
    return z3.Float64() if n == 64 else z3.Float32()


FPIN = []
GUESS = [0, 1, 10, 1234, (1 << 33) + 55, (1 << 53) + 5, (1 << 54) + 7 * 3 ** 9, (1 << 59) + 5 ** 23, (1 << 63) + 3 ** 33]


def fp_input(v):
    """integers turned into floating point: a model is first looked for among a few values of theirs"""
    if z3.is_bv(v) and not any(v.eq(x) for x in FPIN):
        FPIN.append(v)


def fp(v, n):
    """the floating point number with the given bits"""
    return z3.fpBVToFP(bv(v, n), fsort(n))


def fbits(x):
    return lit(z3.fpToIEEEBV(z3.simplify(x)))


def fcmp(pred, n, a, b):
    x, y = fp(a, n), fp(b, n)
    un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
    if pred in ("ord", "uno"):
        return lit(un if pred == "uno" else z3.Not(un))
    r = {"eq": z3.fpEQ, "ne": lambda x, y: z3.Not(z3.fpEQ(x, y)), "lt": z3.fpLT, "le": z3.fpLEQ,
         "gt": z3.fpGT, "ge": z3.fpGEQ}[pred[1:]](x, y)
    return lit(z3.Or(un, r) if pred[0] == "u" else z3.And(z3.Not(un), r))


def fptoint(v, n, m, signed=False, sat=False):
    x = fp(v, n)
    f = z3.fpToSBV if signed else z3.fpToUBV
    if not sat:
        return lit(f(z3.RTZ(), x, z3.BitVecSort(m)))
    lo, hi = (-(1 << (m - 1)), (1 << (m - 1)) - 1) if signed else (0, (1 << m) - 1)
    S = fsort(n)
    r = z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, m), z3.If(
        z3.fpLEQ(x, z3.FPVal(lo, S)), z3.BitVecVal(lo, m), z3.If(
            z3.fpGEQ(x, z3.FPVal(hi + 1, S)), z3.BitVecVal(hi, m), f(z3.RTZ(), x, z3.BitVecSort(m)))))
    return lit(r)


def binop(op, n, a, b):
    if op[0] == "f":
        f = {"fmul": z3.fpMul, "fadd": z3.fpAdd, "fsub": z3.fpSub, "fdiv": z3.fpDiv}[op]
        return fbits(f(z3.RNE(), fp(a, n), fp(b, n)))
    if type(a) is int and type(b) is int:
        m = (1 << n) - 1
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & m if b < n else 0
        if op == "lshr":
            return a >> b if b < n else 0
        if op == "ashr":
            h = 1 << (n - 1)
            return (((a ^ h) - h) >> min(b, n)) & m
        if b == 0:
            raise EngineError("division by zero")
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        raise EngineError(op)
    if n == 1:
        x, y = as_bool(a), as_bool(b)
        if op == "and":
            return lit(z3.And(x, y))
        if op == "or":
            return lit(z3.Or(x, y))
        if op in ("xor", "add", "sub"):
            return lit(z3.Xor(x, y))
        if op == "mul":
            return lit(z3.And(x, y))
        raise EngineError("i1 " + op)
    a, b = tobv(a, n), tobv(b, n)
    r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b,
         "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b,
         "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b, "udiv": lambda: z3.UDiv(a, b),
         "urem": lambda: z3.URem(a, b), "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]()
    return lit(r)


def cast(op, n, v, m):
    if op in ("ptrtoint", "inttoptr", "bitcast"):
        return v
    if op in ("uitofp", "sitofp"):
        fp_input(v)
    if op == "uitofp":
        return fbits(z3.fpUnsignedToFP(z3.RNE(), bv(tobv(v, n), n), fsort(m)))
    if op == "sitofp":
        return fbits(z3.fpSignedToFP(z3.RNE(), bv(tobv(v, n), n), fsort(m)))
    if op in ("fptoui", "fptosi"):
        return fptoint(v, n, m, op == "fptosi")
    if op in ("fpext", "fptrunc"):
        return fbits(z3.fpFPToFP(z3.RNE(), fp(v, n), fsort(m)))
    if type(v) is int:
        if op == "zext":
            return v
        if op == "trunc":
            return v & ((1 << m) - 1)
        if op == "sext":
            return v | (((1 << m) - 1) ^ ((1 << n) - 1)) if v >> (n - 1) else v
    if op == "zext":
        if z3.is_bool(v):
            return tobv(v, m)
        return lit(z3.ZeroExt(m - n, v))
    if op == "sext":
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal((1 << m) - 1, m), z3.BitVecVal(0, m))
        return lit(z3.SignExt(m - n, v))
    if op == "trunc":
        if m == 1:
            return lit(z3.Extract(0, 0, v) == 1)
        return lit(z3.Extract(m - 1, 0, v))
    raise EngineError("cast %s of a symbolic value" % op)


def select(c, a, b, ty):
    if type(a) is int and type(b) is int and a == b:
        return a
    if a is b:
        return a
    if ty.k in ("i", "f"):
        c = as_bool(c)
        if ty.n == 1:
            return lit(z3.If(c, as_bool(a), as_bool(b)))
        return lit(z3.If(c, tobv(a, ty.n), tobv(b, ty.n)))
    return NotImplemented      # pointers and aggregates: fork


def insert(agg, v, idx):
    agg = list(agg) if isinstance(agg, (tuple, list)) else None
    if agg is None:
        raise EngineError("insertvalue into undef")
    k = idx[0]
    agg[k] = v if len(idx) == 1 else insert(agg[k], v, idx[1:])
    return tuple(agg)


# ---------------------------------------------------------------- builtins
BUILTIN = {}


def builtin(*names):
    def d(f):
        for n in names:
            BUILTIN[n] = f
        return f
    return d


MAXALLOC = 1 << 20


def _size(s, st, n, arg, limit=600):
    if type(n) is int:
        return n, None
    return None, Fork(s.values(st, n, limit), arg)


@builtin("__rust_alloc", "__rust_alloc_zeroed", "malloc")
def _alloc(s, st, a):
    n = a[0]
    if type(n) is not int:
        # the size only bounds accesses: reserve the largest feasible one
        mx = max_value(s, st, n, MAXALLOC)
        return s.alloc(st, mx, "heap~")
    if n > MAXALLOC * 16:
        raise PathEnd("panic", "allocation of %d bytes" % n)
    return s.alloc(st, n, "heap")


@builtin("__rust_dealloc", "free")
def _dealloc(s, st, a):
    if type(a[0]) is int:
        st.mem.pop(a[0] >> 32, None)


@builtin("__rust_realloc")
def _realloc(s, st, a):
    p, old, al, new = a
    if type(new) is not int:
        return Fork(s.values(st, new, 600), 3)
    c = s.cells(st, p, min(old, new))
    q = s.alloc(st, new, "heap")
    s.put(st, q, c)
    st.mem.pop(p >> 32, None)
    return q


@builtin("__rust_alloc_error_handler", "__rust_start_panic", "abort")
def _die(s, st, a):
    raise PathEnd("panic", "abort")


@builtin("memcmp", "bcmp")
def _memcmp(s, st, a, bc=False):
    p, q, n = a
    if type(n) is not int:
        return Fork(s.values(st, n, 300), 2)
    if n == 0 or p == q:
        return 0
    x, y = s.cells(st, p, n), s.cells(st, q, n)
    if same_cells(x, y):
        return 0
    u, v = unpack(x), unpack(y)
    if type(u) is int and type(v) is int:
        if u == v:
            return 0
        return 1 if bytes(x) > bytes(y) else M32
    eq = lit(bv(u, 8 * n) == bv(v, 8 * n))
    if is_c(eq):
        if eq:
            return 0
    if bc:
        r = z3.If(as_bool(eq), z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))
        CMP[r.get_id()] = (r, eq, 0)
        return r
    x.reverse()
    y.reverse()
    u, v = unpack(x), unpack(y)
    lt = z3.ULT(bv(u, 8 * n), bv(v, 8 * n))
    r = z3.If(as_bool(eq), z3.BitVecVal(0, 32),
              z3.If(lt, z3.BitVecVal(M32, 32), z3.BitVecVal(1, 32)))
    CMP[r.get_id()] = (r, eq, lit(lt))
    return r


M32 = (1 << 32) - 1
BUILTIN["bcmp"] = lambda s, st, a: _memcmp(s, st, a, True)


@builtin("strlen")
def _strlen(s, st, a):
    n = 0
    while True:
        c = s.load(st, a[0] + n, 1)
        if type(c) is not int:
            raise EngineError("strlen of symbolic data")
        if c == 0:
            return n
        n += 1


@builtin("memcpy", "memmove")
def _memcpy(s, st, a):
    n = a[2]
    if type(n) is not int:
        return Fork(s.values(st, n, 300), 2)
    for k in (0, 1):
        if type(a[k]) is not int:
            return Fork(s.values(st, a[k], 300), k)
    if n:
        s.put(st, a[0], s.cells(st, a[1], n))
    return a[0]


@builtin("memset")
def _memset(s, st, a):
    n = a[2]
    if type(n) is not int:
        ob = st.mem.get(a[0] >> 32) if type(a[0]) is int else None
        if ob is not None and a[1] == 0 and (a[0] & 0xffffffff) == 0 and ob.name == "heap~" \
                and all(c == 0 for c in ob.cells if type(c) is int) and all(type(c) is int for c in ob.cells):
            return a[0]     # fresh zeroed memory
        return Fork(s.values(st, n, 300), 2)
    v = a[1]
    if type(v) is int:
        s.put(st, a[0], [v] * n)
    else:
        s.put(st, a[0], [(v, 0)] * n)
    return a[0]


def max_value(s, st, e, cap):
    """largest feasible value of e, but at most cap"""
    if s.check(st, z3.UGE(e, cap)):
        return cap
    lo, hi = 0, cap
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if s.check(st, z3.UGE(e, mid)):
            lo = mid
        else:
            hi = mid - 1
    return lo


def intrinsic(name):
    p = name.split(".")
    k = p[1]
    if k in ("memcpy", "memmove"):
        return _memcpy
    if k == "memset":
        return _memset
    if k == "trap":
        return _die
    w = int(p[-1][1:]) if p[-1][0] == "i" and p[-1][1:].isdigit() else 64
    m = (1 << w) - 1
    if len(p) >= 4 and p[3] == "overflow" if len(p) > 3 else False:
        def ov(s, st, a, k=k):
            x, y = a
            if type(x) is int and type(y) is int:
                if k[0] == "u":
                    r = x + y if k == "uadd" else x - y if k == "usub" else x * y
                    return (r & m, int(r != (r & m)))
                h = 1 << (w - 1)
                sx, sy = (x ^ h) - h, (y ^ h) - h
                r = sx + sy if k == "sadd" else sx - sy if k == "ssub" else sx * sy
                return (r & m, int(not (-h <= r < h)))
            x, y = bv(x, w), bv(y, w)
            if k == "uadd":
                r = x + y
                return (lit(r), lit(z3.ULT(r, x)))
            if k == "usub":
                return (lit(x - y), lit(z3.ULT(x, y)))
            if k == "umul":
                return (lit(x * y), lit(z3.Not(z3.BVMulNoOverflow(x, y, False))))
            if k in ("sadd", "ssub"):
                r = x + y if k == "sadd" else x - y
                h = w - 1
                sx, sy, sr = [z3.Extract(h, h, v) for v in (x, y, r)]
                return (lit(r), lit(z3.And(sx == sy if k == "sadd" else sx != sy, sr != sx)))
            if k == "smul":
                return (lit(x * y), lit(z3.Not(z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)))))
            raise EngineError(name)
        return ov
    if k in ("umin", "umax", "smin", "smax"):
        def mm(s, st, a, k=k):
            lt = icmp("ult" if k[0] == "u" else "slt", w, a[0], a[1])
            x, y = (a[0], a[1]) if k.endswith("min") else (a[1], a[0])
            if is_c(lt):
                return x if lt else y
            return lit(z3.If(lt, bv(x, w), bv(y, w)))
        return mm
    if k in ("usub", "uadd") and p[2] == "sat":
        def sat(s, st, a, k=k):
            x, y = a
            if is_c(x) and is_c(y):
                return max(0, x - y) if k == "usub" else min(m, x + y)
            x, y = bv(x, w), bv(y, w)
            if k == "usub":
                return lit(z3.If(z3.ULT(x, y), z3.BitVecVal(0, w), x - y))
            r = x + y
            return lit(z3.If(z3.ULT(r, x), z3.BitVecVal(m, w), r))
        return sat
    if k in ("scmp", "ucmp"):
        w2 = int(p[3][1:])
        rw = int(p[2][1:])

        def cmp3(s, st, a, k=k):
            lt = icmp("slt" if k[0] == "s" else "ult", w2, a[0], a[1])
            eq = icmp("eq", w2, a[0], a[1])
            if is_c(lt) and is_c(eq):
                return 0 if eq else ((1 << rw) - 1 if lt else 1)
            return lit(z3.If(as_bool(eq), z3.BitVecVal(0, rw),
                             z3.If(as_bool(lt), z3.BitVecVal((1 << rw) - 1, rw), z3.BitVecVal(1, rw))))
        return cmp3
    if k == "ctlz":
        def ctlz(s, st, a):
            if not is_c(a[0]):
                r = z3.BitVecVal(w, w)
                for j in range(w):
                    r = z3.If(z3.Extract(j, j, a[0]) == 1, z3.BitVecVal(w - 1 - j, w), r)
                return lit(r)
            return w - a[0].bit_length()
        return ctlz
    if k == "cttz":
        def cttz(s, st, a):
            if not is_c(a[0]):
                r = z3.BitVecVal(w, w)
                for j in reversed(range(w)):
                    r = z3.If(z3.Extract(j, j, a[0]) == 1, z3.BitVecVal(j, w), r)
                return lit(r)
            return (a[0] & -a[0]).bit_length() - 1 if a[0] else w
        return cttz
    if k == "ctpop":
        def ctpop(s, st, a):
            if is_c(a[0]):
                return bin(a[0]).count("1")
            return lit(sum([z3.ZeroExt(w - 1, z3.Extract(j, j, a[0])) for j in range(1, w)],
                           z3.ZeroExt(w - 1, z3.Extract(0, 0, a[0]))))
        return ctpop
    if k == "bswap":
        def bswap(s, st, a):
            if is_c(a[0]):
                return int.from_bytes(a[0].to_bytes(w // 8, "little"), "big")
            return lit(z3.Concat(*[z3.Extract(8 * j + 7, 8 * j, a[0]) for j in range(w // 8)]))
        return bswap
    if k in ("fshl", "fshr"):
        def fsh(s, st, a, k=k):
            x, y, z = a
            if not is_c(z):
                z = bv(z, w)
                d = z3.Concat(bv(x, w), bv(y, w))
                z = z3.ZeroExt(w, z3.URem(z, z3.BitVecVal(w, w)))
                if k == "fshl":
                    return lit(z3.Extract(2 * w - 1, w, d << z))
                return lit(z3.Extract(w - 1, 0, z3.LShR(d, z)))
            z %= w
            if k == "fshr":
                z = (w - z) % w if z else 0
                if z == 0:
                    return y
            if z == 0:
                return x
            return binop("or", w, binop("shl", w, x, z), binop("lshr", w, y, w - z))
        return fsh
    if k == "abs":
        def ab(s, st, a):
            neg = icmp("slt", w, a[0], 0)
            x = binop("sub", w, 0, a[0])
            if is_c(neg):
                return x if neg else a[0]
            return lit(z3.If(neg, bv(x, w), bv(a[0], w)))
        return ab
    if k in ("fptoui", "fptosi"):
        n, o = [int(x[1:]) for x in (p[-1], p[-2])]
        return lambda s, st, a: fptoint(a[0], n, o, k == "fptosi", True)
    if p[-1] in ("f64", "f32"):
        n = int(p[-1][1:])
        rm = {"floor": z3.RTN, "ceil": z3.RTP, "trunc": z3.RTZ, "round": z3.RNA, "roundeven": z3.RNE, "rint": z3.RNE}
        if k in rm:
            return lambda s, st, a: fbits(z3.fpRoundToIntegral(rm[k](), fp(a[0], n)))
        f = {"fabs": lambda x: z3.fpAbs(x), "sqrt": lambda x: z3.fpSqrt(z3.RNE(), x), "minnum": z3.fpMin, "maxnum": z3.fpMax,
             "fma": lambda x, y, z: z3.fpFMA(z3.RNE(), x, y, z),
             "fmuladd": lambda x, y, z: z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), x, y), z)}.get(k)
        if f:
            return lambda s, st, a: fbits(f(*[fp(x, n) for x in a]))
    if k in ("expect",):
        return lambda s, st, a: a[0]
    if k == "is" or k in ("stacksave", "stackrestore", "va_start"):
        return lambda s, st, a: 0
    return None


def _panic(s, st, a):
    raise PathEnd("panic", "panic")


PREFIX = [
    ("_ZN4core9panicking", _panic),
    ("_ZN5alloc5alloc18handle_alloc_error", _panic),
    ("_ZN3std2io5stdio", lambda s, st, a: 0),
]


# ---------------------------------------------------------------- environment
@builtin("__sym_u64")
def _sym_u64(s, st, a):
    tag = a[0]
    pre = st.tags.get(("u64", tag))
    v = s.fresh(st, "env%d" % tag, 64) if pre is None else pre
    st.syms.append(("u64", tag, v))
    return v


@builtin("__sym_bytes")
def _sym_bytes(s, st, a):
    p, n, tag = a
    if n:
        v = s.fresh(st, "envb%d" % tag, 8 * n)
        s.put(st, p, pack(v, n))
        st.syms.append(("bytes", tag, v))


@builtin("__assume")
def _assume(s, st, a):
    c = as_bool(a[0])
    if not s.add(st, c):
        raise PathEnd("infeasible")


@builtin("__tx_abort")
def _tx_abort(s, st, a):
    raise PathEnd("abort", a[0])


@builtin("__require")
def _require(s, st, a):
    c, why = a
    if is_c(c):
        if not c & 1:
            raise PathEnd("abort", why)
        return None
    br = s.branch(st, c)
    if len(br) == 1:
        if not br[0][1]:
            raise PathEnd("abort", why)
        return None
    return Fork([(t, ("abort", why) if not v else None) for t, v in br])


@builtin("__cpi_event")
def _cpi_event(s, st, a):
    pid, data, n, metas, k = a
    d = s.cells(st, data, n)
    ms = s.cells(st, metas, 34 * k)
    st.events.append((unpack(s.cells(st, pid, 32)), d, [
        (unpack(ms[34 * j:34 * j + 32]), ms[34 * j + 32], ms[34 * j + 33]) for j in range(k)]))


@builtin("__mark")
def _mark(s, st, a):
    st.events.append(("mark", a))


# program-derived addresses: one function from (program, seed bytes) to an
# address, collision-free, never on the curve; the canonical bump is a
# function of (program, seeds) too
def _table(s, st, prog, cells):
    n = len(cells)
    val = unpack(cells) if n else 0
    for e in st.pdas:
        if e[0] == n and same(e[1], prog) and same(e[2], val):
            return e
    key = z3.BitVec("pda%d" % (len(st.pdas)), 256)
    cons = []
    for (m, p2, v2, k2) in st.pdas:
        if m == n:
            eq = z3.And(bv(prog, 256) == bv(p2, 256), bv(val, 8 * n) == bv(v2, 8 * n)) if n else \
                bv(prog, 256) == bv(p2, 256)
            eq = z3.simplify(eq)
            cons.append(eq == (key == k2))
        else:
            cons.append(key != k2)
    for k in s.fixed_keys:
        cons.append(key != z3.BitVecVal(k, 256))
    st.pdas.append((n, prog, val, key))
    oc = s.on_curve(key)
    cons.append(z3.Not(oc))
    for c in cons:
        c = lit(c)
        if is_c(c):
            if not c:
                raise PathEnd("infeasible")
            continue
        st.pc.append(c)
    st.model = None
    if not s.possible(st):
        raise PathEnd("infeasible")
    st.model = s.last_model
    return st.pdas[-1]


def same(a, b):
    if type(a) is int or type(b) is int:
        return type(a) is int and type(b) is int and a == b
    return a.eq(b)


CURVE = z3.Function("on_curve", z3.BitVecSort(256), z3.BoolSort())
BUMP = {}


def bump_fn(n):
    if n not in BUMP:
        BUMP[n] = z3.Function("bump%d" % n, z3.BitVecSort(256), z3.BitVecSort(max(8, 8 * n)), z3.BitVecSort(8))
    return BUMP[n]


Engine.fixed_keys = []
Engine.on_curve = lambda s, k: CURVE(bv(k, 256))


@builtin("__pda_find")
def _pda_find(s, st, a):
    seed, n, pid, out = a
    prog = unpack(s.cells(st, pid, 32))
    c = s.cells(st, seed, n)
    val = unpack(c) if n else 0
    b = bump_fn(n)(bv(prog, 256), bv(val, max(8, 8 * n)))
    e = _table(s, st, prog, c + [(b, 0)])
    s.put(st, out, pack(e[3], 32))
    return b


@builtin("__pda_create")
def _pda_create(s, st, a):
    seed, n, pid, out = a
    prog = unpack(s.cells(st, pid, 32))
    c = s.cells(st, seed, n)
    # a derivation with an arbitrary bump may fail; only the canonical one is
    # known to give an off-curve address
    val = unpack(c) if n else 0
    for e in st.pdas:
        if e[0] == n and same(e[1], prog) and same(e[2], val):
            s.put(st, out, pack(e[3], 32))
            return 1
    # decide by case split: equal to a known derivation or not
    for e in st.pdas:
        if e[0] != n:
            continue
        eq = z3.And(bv(prog, 256) == bv(e[1], 256), bv(val, 8 * n) == bv(e[2], 8 * n))
        eq = lit(eq)
        if is_c(eq) and not eq:
            continue
        if not s.check(st, z3.Not(as_bool(eq))):
            s.put(st, out, pack(e[3], 32))
            return 1
    e = _table(s, st, prog, c)
    s.put(st, out, pack(e[3], 32))
    return 1


@builtin("__on_curve")
def _on_curve(s, st, a):
    k = unpack(s.cells(st, a[0], 32))
    st.curve.append(k)
    c = s.on_curve(k)
    return tobv(c, 8)
