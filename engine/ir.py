"""A parser for the textual LLVM IR that build.py produces.

Only the instruction set that occurs is understood; anything else becomes an
('unsupported', text) instruction, which the executor reports if reached.
"""
import re, struct

TOK = re.compile(r'''
  c"(?:[^"\\]|\\.)*" | [%@]"[^"]*" | [%@][\w.$-]+ | "[^"]*" | !\d+ | ![\w.]+(?:\([^)]*\))? |
  \#\d+ | -?\d+\.\d+(?:e[+-]?\d+)? | 0x[0-9A-Fa-f]+ | -?\d+ | [A-Za-z_][\w.]* | [()\[\]{}<>,=*:!] | \.\.\.
''', re.X)


# ---- types
class Ty:
    __slots__ = ("k", "n", "el", "size", "align", "offs")

    def __init__(s, k, n=0, el=None):
        s.k, s.n, s.el = k, n, el
        s.offs = None
        if k == "i":
            s.size = (n + 7) // 8
            if s.size > 8:
                s.size = (s.size + 15) // 16 * 16 if n > 64 and n <= 128 else s.size
            s.align = min(16, 1 << (max(1, s.size) - 1).bit_length())
        elif k == "p":
            s.size = s.align = 8
        elif k == "f":
            s.size = s.align = n // 8
        elif k == "v":
            s.size, s.align = 0, 1
        elif k == "a":
            s.size, s.align = n * el.size, el.align
        elif k == "vec":
            s.size = n * el.size
            s.align = s.size
        elif k in ("s", "ps"):
            o, al, s.offs = 0, 1, []
            for t in el:
                a = 1 if k == "ps" else t.align
                o = (o + a - 1) // a * a
                s.offs.append(o)
                o += t.size
                al = max(al, a)
            s.size = (o + al - 1) // al * al
            s.align = al
        else:
            s.size, s.align = 0, 1

    def __repr__(s):
        return "%s%s" % (s.k, s.n or s.el or "")


_ints = {}


def ity(n):
    if n not in _ints:
        _ints[n] = Ty("i", n)
    return _ints[n]


PTR, VOID, F64, META, LABEL = Ty("p"), Ty("v"), Ty("f", 64), Ty("meta"), Ty("label")


class P:
    """token cursor"""

    def __init__(s, text):
        s.t = TOK.findall(text)
        s.i = 0

    def peek(s, k=0):
        return s.t[s.i + k] if s.i + k < len(s.t) else ""

    def next(s):
        s.i += 1
        return s.t[s.i - 1]

    def eat(s, x):
        if s.peek() == x:
            s.i += 1
            return True
        return False

    def expect(s, x):
        if s.next() != x:
            raise SyntaxError("expected %r at %r" % (x, s.t[max(0, s.i - 6):s.i + 4]))

    # -- types
    def ty(s):
        t = s.next()
        if t == "ptr":
            return PTR
        if t == "void":
            return VOID
        if t == "double":
            return F64
        if t == "float":
            return Ty("f", 32)
        if t == "metadata":
            return META
        if t == "label":
            return LABEL
        if t[0] == "i" and t[1:].isdigit():
            return ity(int(t[1:]))
        if t == "[":
            n = int(s.next())
            s.expect("x")
            e = s.ty()
            s.expect("]")
            return Ty("a", n, e)
        if t == "<":
            if s.eat("{"):
                r = s._fields("ps")
                s.expect(">")
                return r
            n = int(s.next())
            s.expect("x")
            e = s.ty()
            s.expect(">")
            return Ty("vec", n, e)
        if t == "{":
            return s._fields("s")
        raise SyntaxError("type %r" % t)

    def _fields(s, k):
        el = []
        if not s.eat("}"):
            while True:
                el.append(s.ty())
                if s.eat("}"):
                    break
                s.expect(",")
        return Ty(k, 0, el)

    # -- operands: ('r', name) | ('c', value) | ('g', name, off) | ('agg', [..])
    def val(s, ty):
        t = s.next()
        if t[0] == "%":
            return ("r", t)
        if t[0] == "@":
            return ("g", t[1:].strip('"'), 0)
        if t == "true":
            return ("c", 1)
        if t == "false":
            return ("c", 0)
        if t == "null":
            return ("c", 0)
        if t in ("undef", "poison", "zeroinitializer"):
            return ("c", zero(ty))
        if t[0] == "c" and t[1:2] == '"':
            return ("bytes", unescape(t[2:-1]))
        if t == "[" or t == "{" or t == "<":
            packed = t == "<" and s.eat("{")
            close = "}" if packed or t == "{" else ("]" if t == "[" else ">")
            el = []
            if not s.eat(close):
                while True:
                    et = s.ty()
                    el.append((et, s.val(et)))
                    if s.eat(close):
                        break
                    s.expect(",")
            if packed:
                s.expect(">")
            return ("agg", el)
        if t == "getelementptr":
            while s.peek() in ("inbounds", "nuw", "nusw"):
                s.next()
            s.expect("(")
            bt = s.ty()
            s.expect(",")
            s.ty()
            base = s.val(PTR)
            off, cur, first = 0, bt, True
            while s.eat(","):
                it = s.ty()
                iv = s.val(it)
                k = iv[1]
                if k >> 63:
                    k -= 1 << 64
                if first:
                    off += k * bt.size
                    first = False
                else:
                    o, cur = step(cur, k)
                    off += o
            s.expect(")")
            if base[0] == "g":
                return ("g", base[1], base[2] + off)
            return ("c", (base[1] + off) & (2**64 - 1))
        if t in ("inttoptr", "ptrtoint", "bitcast", "addrspacecast"):
            s.expect("(")
            a = s.ty()
            v = s.val(a)
            s.expect("to")
            s.ty()
            s.expect(")")
            return v
        if ty.k == "f":
            # floating point values are kept as their bits
            v = struct.unpack(">d", int(t, 16).to_bytes(8, "big"))[0] if t.startswith("0x") else float(t)
            return ("c", int.from_bytes(struct.pack("<d" if ty.n == 64 else "<f", v), "little"))
        if t.lstrip("-").isdigit():
            return ("c", int(t) & ((1 << (ty.n if ty.k == "i" else 64)) - 1))
        raise SyntaxError("value %r (type %r)" % (t, ty))

    def skip_attrs(s):
        """parameter / return attributes before a value or a type"""
        while True:
            t = s.peek()
            if t in ATTRS:
                s.next()
                if t in ("align",) and s.peek() != "(":
                    s.next()
                elif s.peek() == "(":
                    s.parens()
            else:
                return

    def parens(s):
        d = 0
        while True:
            t = s.next()
            if t == "(":
                d += 1
            elif t == ")":
                d -= 1
                if d == 0:
                    return


ATTRS = set("""noundef nonnull zeroext signext inreg noalias nocapture captures readonly readnone writeonly
immarg align dereferenceable dereferenceable_or_null sret byval returned range nofree swiftself nest
dead_on_unwind writable allocalign allocptr noext initializes tail fastcc coldcc ccc""".split())


def unescape(x):
    out = bytearray()
    i = 0
    while i < len(x):
        if x[i] == "\\":
            if x[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(x[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(x[i]))
            i += 1
    return bytes(out)


def zero(ty):
    if ty.k in ("s", "ps"):
        return tuple(zero(t) for t in ty.el)
    if ty.k in ("a", "vec"):
        return tuple(zero(ty.el) for _ in range(ty.n))
    if ty.k == "f":
        return 0.0
    return 0


def step(t, k):
    if t.k in ("s", "ps"):
        return t.offs[k], t.el[k]
    return k * t.el.size, t.el


class Func:
    def __init__(s, name):
        s.name = name
        s.params = []
        s.blocks = {}
        s.order = []
        s.nregs = 0
        s.regs = {}

    def reg(s, n):
        r = s.regs.get(n)
        if r is None:
            r = s.regs[n] = len(s.regs)
        return r


class Block:
    __slots__ = ("name", "phis", "ins")

    def __init__(s, name):
        s.name, s.phis, s.ins = name, [], []


class Module:
    def __init__(s, path):
        s.globals = {}      # name -> (type, init or None, const)
        s.raw = {}          # function name -> lines (parsed on demand)
        s.funcs = {}
        s.decls = set()
        s._load(path)

    def _load(s, path):
        lines = open(path).read().split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("define "):
                m = re.match(r'^define [^@]*@("[^"]+"|[\w.$]+)\(', l)
                n = m.group(1).strip('"')
                j = i + 1
                while lines[j] != "}":
                    j += 1
                s.raw[n] = (l, lines[i + 1:j])
                i = j + 1
                continue
            if l.startswith("declare "):
                m = re.match(r'^declare [^@]*@("[^"]+"|[\w.$]+)\(', l)
                s.decls.add(m.group(1).strip('"'))
            elif l.startswith("@"):
                m = re.match(r'^@("[^"]+"|[\w.$]+) = (.*)$', l)
                s.globals[m.group(1).strip('"')] = m.group(2)
            elif l.startswith("%") and "= type" in l:
                raise SyntaxError("named type: " + l)
            i += 1

    def global_init(s, name):
        """-> (type, operand or None)"""
        text = s.globals[name]
        m = re.search(r'\b(constant|global)\b', text)
        p = P(text[m.end():])
        ty = p.ty()
        if p.peek() in ("", ",") or "external" in text[:m.start()].split():
            return ty, None
        return ty, p.val(ty)

    def func(s, name):
        f = s.funcs.get(name)
        if f is None:
            if name not in s.raw:
                return None
            f = s.funcs[name] = s._parse(name)
        return f

    def _parse(s, name):
        head, body = s.raw[name]
        f = Func(name)
        k = head.index("(", head.index("@" + name) if "@" + name in head else head.index('@"'))
        k = head.index("(", head.rindex(name, 0, k + 1) + len(name)) if name in head[:k + 1] else k
        p = P(head[k:])
        p.expect("(")
        n = 0
        while not p.eat(")"):
            if p.eat("..."):
                continue
            p.ty()
            p.skip_attrs()
            if p.peek().startswith("%"):
                f.params.append(f.reg(p.next()))
            else:
                f.params.append(f.reg("%%%d" % n))
            n += 1
            p.eat(",")
        cur = None
        i = 0
        while i < len(body):
            l = body[i]
            i += 1
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            if not l.startswith(" "):
                m = re.match(r'^("[^"]+"|[\w.$-]+):', l)
                cur = Block(m.group(1).strip('"'))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block("%entry")
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            t = l.strip()
            if t.startswith("switch ") and not t.endswith("]"):
                while not body[i].strip().startswith("]"):
                    t += " " + body[i].strip()
                    i += 1
                t += " ]"
                i += 1
            if re.match(r'^(%\S+ = )?invoke ', t):
                t += " " + body[i].strip()
                i += 1
            if "landingpad" in t:
                while i < len(body) and re.match(r'^\s+(cleanup|catch|filter)\b', body[i]):
                    i += 1
            # metadata attachments
            t = re.sub(r', ![\w.]+ !\d+', "", t)
            t = re.sub(r', !prof !\d+| !srcloc !\d+', "", t)
            try:
                ins = s._ins(f, t)
            except (SyntaxError, IndexError, KeyError, ValueError) as e:
                ins = ("unsupported", "%s  [%s]" % (t, e))
            if ins is None:
                continue
            if ins[0] == "phi":
                cur.phis.append(ins)
            else:
                cur.ins.append(ins)
        f.nregs = len(f.regs)
        return f

    # operand with registers numbered
    def _o(s, f, v, ty=None):
        if v[0] == "r":
            return ("r", f.reg(v[1]))
        if v[0] == "agg":
            return ("c", tuple(x[1][1] if x[1][0] == "c" else x[1] for x in v[1])) if all(
                x[1][0] == "c" for x in v[1]) else ("agg", [s._o(f, x[1]) for x in v[1]])
        return v

    def _ins(s, f, t):
        dest = None
        m = re.match(r'^(%"[^"]+"|%[\w.$-]+) = (.*)$', t)
        if m:
            dest = f.reg(m.group(1))
            t = m.group(2)
        p = P(t)
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        o = lambda v: s._o(f, v)
        if op == "load":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            ty = p.ty()
            p.expect(",")
            p.ty()
            return ("load", dest, ty, o(p.val(PTR)))
        if op == "store":
            while p.peek() in ("volatile", "atomic"):
                p.next()
            ty = p.ty()
            v = o(p.val(ty))
            p.expect(",")
            p.ty()
            return ("store", ty, v, o(p.val(PTR)))
        if op == "alloca":
            ty = p.ty()
            n = ("c", 1)
            if p.eat(","):
                if p.peek() != "align":
                    nt = p.ty()
                    n = o(p.val(nt))
            return ("alloca", dest, ty.size, n)
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            if p.peek() == "inrange":
                p.next()
                p.parens()
            bt = p.ty()
            p.expect(",")
            p.ty()
            base = o(p.val(PTR))
            off, dyn, cur, first = 0, [], bt, True
            while p.eat(","):
                it = p.ty()
                iv = o(p.val(it))
                if first:
                    sc = bt.size
                    first = False
                    nxt = bt
                elif cur.k in ("s", "ps"):
                    off += cur.offs[iv[1]]
                    cur = cur.el[iv[1]]
                    continue
                else:
                    sc = cur.el.size
                    nxt = cur.el
                cur = nxt
                if iv[0] == "c":
                    k = iv[1]
                    if it.n < 64 and k >> (it.n - 1):
                        k -= 1 << it.n
                    elif k >> 63:
                        k -= 1 << 64
                    off += k * sc
                else:
                    dyn.append((iv, sc, it.n))
            return ("gep", dest, base, off, dyn)
        if op == "br":
            if p.peek() == "label":
                p.next()
                return ("jmp", p.next()[1:].strip('"'))
            p.ty()
            c = o(p.val(ity(1)))
            p.expect(",")
            p.expect("label")
            a = p.next()[1:].strip('"')
            p.expect(",")
            p.expect("label")
            b = p.next()[1:].strip('"')
            return ("br", c, a, b)
        if op == "switch":
            ty = p.ty()
            v = o(p.val(ty))
            p.expect(",")
            p.expect("label")
            d = p.next()[1:].strip('"')
            p.expect("[")
            cases = []
            while not p.eat("]"):
                ct = p.ty()
                cv = p.val(ct)[1]
                p.expect(",")
                p.expect("label")
                cases.append((cv, p.next()[1:].strip('"')))
            return ("switch", v, ty.n, d, cases)
        if op == "ret":
            if p.peek() == "void":
                return ("ret", None)
            ty = p.ty()
            return ("ret", o(p.val(ty)))
        if op == "unreachable":
            return ("unreachable",)
        if op == "phi":
            ty = p.ty()
            inc = {}
            while True:
                p.expect("[")
                v = o(p.val(ty))
                p.expect(",")
                inc[p.next()[1:].strip('"')] = v
                p.expect("]")
                if not p.eat(","):
                    break
            return ("phi", dest, inc)
        if op == "icmp":
            p.eat("samesign")
            pred = p.next()
            ty = p.ty()
            a = o(p.val(ty))
            p.expect(",")
            return ("icmp", dest, pred, 64 if ty.k == "p" else ty.n, a, o(p.val(ty)))
        if op in ("fcmp", "fneg"):
            while p.peek() in ("nnan", "ninf", "nsz", "fast", "contract", "reassoc", "arcp", "afn"):
                p.next()
            pred = p.next() if op == "fcmp" else None
            ty = p.ty()
            a = o(p.val(ty))
            if ty.k == "vec":
                return ("unsupported", t)
            if op == "fneg":
                return ("bin", dest, "xor", ty.n, a, o(("c", 1 << (ty.n - 1))))
            p.expect(",")
            return ("fcmp", dest, pred, ty.n, a, o(p.val(ty)))
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv",
                  "urem", "sdiv", "srem", "fmul", "fadd", "fsub", "fdiv"):
            while p.peek() in ("nuw", "nsw", "exact", "disjoint", "nnan", "ninf", "nsz", "fast",
                               "contract", "reassoc", "arcp", "afn"):
                p.next()
            ty = p.ty()
            a = o(p.val(ty))
            p.expect(",")
            if ty.k == "vec":
                return ("unsupported", t)
            return ("bin", dest, op, ty.n, a, o(p.val(ty)))
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "uitofp", "sitofp",
                  "fptoui", "fptosi", "fpext", "fptrunc"):
            while p.peek() in ("nuw", "nsw", "nneg"):
                p.next()
            a = p.ty()
            v = o(p.val(a))
            p.expect("to")
            b = p.ty()
            return ("cast", dest, op, 64 if a.k == "p" else a.n, v, 64 if b.k == "p" else b.n)
        if op == "select":
            ct = p.ty()
            c = o(p.val(ct))
            p.expect(",")
            a = p.ty()
            x = o(p.val(a))
            p.expect(",")
            b = p.ty()
            return ("select", dest, c, x, o(p.val(b)), a)
        if op == "extractvalue":
            ty = p.ty()
            v = o(p.val(ty))
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return ("extractvalue", dest, v, idx)
        if op == "insertvalue":
            ty = p.ty()
            v = o(p.val(ty))
            p.expect(",")
            et = p.ty()
            e = o(p.val(et))
            idx = []
            while p.eat(","):
                idx.append(int(p.next()))
            return ("insertvalue", dest, v, e, idx)
        if op == "freeze":
            ty = p.ty()
            return ("copy", dest, o(p.val(ty)))
        if op in ("call", "invoke"):
            while p.peek() in ("nnan", "ninf", "nsz", "fast"):
                p.next()
            p.skip_attrs()
            rt = p.ty()
            if p.peek() == "(":      # full function type
                p.parens()
            tgt = p.next()
            if tgt == "asm":
                return ("copy", dest, ("c", 0)) if "\"\"" in t else ("unsupported", t)
            callee = ("g", tgt[1:].strip('"'), 0) if tgt[0] == "@" else ("r", f.reg(tgt))
            p.expect("(")
            args = []
            while not p.eat(")"):
                at = p.ty()
                p.skip_attrs()
                if at is META:
                    p.next()
                    if p.peek() == "{":
                        while p.next() != "}":
                            pass
                    args.append(("c", 0))
                else:
                    args.append(o(p.val(at)))
                p.eat(",")
            if callee[0] == "g" and callee[1].startswith(IGNORED):
                return None
            nxt = None
            if op == "invoke":
                while p.next() != "to":
                    pass
                p.expect("label")
                nxt = p.next()[1:].strip('"')
            return ("call", dest, callee, args, nxt, rt)
        if op == "atomicrmw":
            p.eat("volatile")
            kind = p.next()
            p.ty()
            a = o(p.val(PTR))
            p.expect(",")
            ty = p.ty()
            return ("rmw", dest, kind, ty, a, o(p.val(ty)))
        if op == "cmpxchg":
            while p.peek() in ("weak", "volatile"):
                p.next()
            p.ty()
            a = o(p.val(PTR))
            p.expect(",")
            ty = p.ty()
            c = o(p.val(ty))
            p.expect(",")
            p.ty()
            return ("cmpxchg", dest, ty, a, c, o(p.val(ty)))
        if op == "fence":
            return None
        return ("unsupported", t)


IGNORED = ("llvm.lifetime", "llvm.experimental.noalias", "llvm.assume", "llvm.dbg",
           "llvm.donothing", "llvm.invariant", "llvm.sideeffect")
