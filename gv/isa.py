"""Abstract interpretation of inline assembly over its control-flow graph.

Every register, flag and memory granule carries: the set of inputs it depends on (operand values ("v", i), memory reached through
operand i ("m", i)), what it points to (region, offset) and whether it still holds a register's initial value.  From this follow
the data-dependent timing sinks (C07) and the declared-clobber, stack and bounds obligations (C08).  Nothing is executed."""
import re
from . import asm as A

E0 = frozenset()


class Val:
    __slots__ = ("a", "p", "t")

    def __init__(self, a=E0, p=E0, t=None):
        self.a, self.p, self.t = a, p, t

    def __eq__(self, o):
        return self.a == o.a and self.p == o.p and self.t == o.t

    def __repr__(self):
        return "V(%s,%s,%s)" % (set(self.a), set(self.p), self.t)


ZERO = Val(t=("int", 0))


def joinp(p, q):
    if p == q:
        return p
    r = {}
    for reg, off in list(p) + list(q):
        if reg in r and r[reg] != off:
            r[reg] = None
        else:
            r.setdefault(reg, off)
    return frozenset(r.items())


def join(x, y):
    if x is y or x == y:
        return x
    return Val(x.a | y.a, joinp(x.p, y.p), x.t if x.t == y.t else None)


class State:
    __slots__ = ("r", "f", "m", "b")

    def __init__(self):
        self.r, self.f, self.m, self.b = {}, {}, {}, {}

    def copy(self):
        s = State()
        s.r, s.f, s.m, s.b = dict(self.r), dict(self.f), dict(self.m), dict(self.b)
        return s

    def default(self, reg):
        return self.b.get(reg, E0)

    def merge(self, o):
        """join o into self; True if self changed"""
        ch = False
        for k in set(self.r) | set(o.r):
            x, y = self.r.get(k), o.r.get(k)
            if x is None or y is None:
                # one side never wrote it: its initial value
                x = x or Val(t=("init", k))
                y = y or Val(t=("init", k))
            z = join(x, y)
            if k not in self.r or z != self.r[k]:
                self.r[k] = z
                ch = True
        for k in o.f:
            z = self.f.get(k, E0) | o.f[k]
            if z != self.f.get(k):
                self.f[k] = z
                ch = True
        for k in set(self.b) | set(o.b):
            z = self.b.get(k, E0) | o.b.get(k, E0)
            if z != self.b.get(k):
                self.b[k] = z
                ch = True
        for k in set(self.m) | set(o.m):
            x = self.m.get(k) or Val(self.default(k[0]))
            y = o.m.get(k) or Val(o.default(k[0]))
            z = join(x, y)
            if k not in self.m or z != self.m[k]:
                self.m[k] = z
                ch = True
        return ch


X_FULL = {}
for q, d, w, b in (("rax", "eax", "ax", "al"), ("rbx", "ebx", "bx", "bl"), ("rcx", "ecx", "cx", "cl"), ("rdx", "edx", "dx", "dl"), ("rsi", "esi", "si", "sil"), ("rdi", "edi", "di", "dil"), ("rbp", "ebp", "bp", "bpl"), ("rsp", "esp", "sp", "spl")):
    X_FULL[q] = (q, 8)
    X_FULL[d] = (q, 4)
    X_FULL[w] = (q, 2)
    X_FULL[b] = (q, 1)
for i in range(8, 16):
    X_FULL["r%d" % i] = ("r%d" % i, 8)
    X_FULL["r%dd" % i] = ("r%d" % i, 4)
    X_FULL["r%dw" % i] = ("r%d" % i, 2)
    X_FULL["r%db" % i] = ("r%d" % i, 1)
for i in range(32):
    X_FULL["xmm%d" % i] = ("v%d" % i, 16)
    X_FULL["ymm%d" % i] = ("v%d" % i, 32)
    X_FULL["zmm%d" % i] = ("v%d" % i, 64)
for i in range(8):
    X_FULL["k%d" % i] = ("k%d" % i, 8)

A_VW = {"q": 16, "d": 8, "s": 4, "h": 2, "b": 1}


def num(s):
    s = s.strip().lstrip("#").strip()
    if not re.match(r"^[-+*/() 0-9a-fA-FxX<>]+$", s):
        return None
    try:
        return int(eval(s, {"__builtins__": {}}))
    except Exception:
        return None


CC = {"b": "c", "c": "c", "nc": "c", "ae": "c", "nae": "c", "nb": "c", "e": "z", "z": "z", "ne": "z", "nz": "z", "be": "cz", "a": "cz", "nbe": "cz", "na": "cz", "s": "z", "ns": "z", "l": "zo", "ge": "zo", "g": "zo", "le": "zo", "nge": "zo", "nl": "zo", "o": "o", "no": "o", "p": "z", "np": "z"}
X_NOFLAG = re.compile(r"^(mov\w*|lea|not|push|pop|mulx|pext|pdep|rorx|sarx|shlx|shrx|xchg|bswap|v\w+|p(?!ext|dep)\w+|endbr64|nop|cmov\w+|set\w+|call|ret|jmp|j\w+|repz|rep \w+|prefetch\w*|[lms]fence|cdq|cqo)$")
X_WONLY = re.compile(r"^(mov|movabs|movzx|movsx|movsxd|movd|movq|movdqa|movdqu|movaps|movups|lea|rorx|pext|pdep|sarx|shlx|shrx|popcnt|lzcnt|tzcnt|andn|v(?!movhpd|movlpd|movhps|movlps|pternlog|fma|fnm|perm[it]2|aesenc_|pinsr_)\w+|pmovmskb|pshufd)$")


class Asm:
    def __init__(self, t, arch, opinfo):
        """opinfo[i]: {"ptr": bool, "size": bytes of the pointee or None}"""
        self.t, self.arch, self.opinfo = t, arch[0], opinfo
        self.ins, self.labels = A.parse(t)
        self.sinks = {}  # (line, kind) -> set of atoms
        self.oob = {}
        self.writes = {}  # region -> atoms stored
        self.stores = self.loads = self.flags = self.stackuse = False
        self.unknown = {}
        self.minsp = 0
        self.checked = 0
        self.unbounded = 0
        self.cond = self.addr = 0
        self.regop = {}
        for i, o in enumerate(t["ops"]):
            r = o.get("reg")
            if r and r.startswith('"'):
                self.regop.setdefault(self.phys(r.strip('"')), []).append(i)

    # ---------------------------------------------------------------- operands
    def phys(self, n):
        if self.arch == "x":
            n = {"ax": "rax", "bx": "rbx", "cx": "rcx", "dx": "rdx", "si": "rsi", "di": "rdi", "bp": "rbp", "sp": "rsp"}.get(n, n)
            return X_FULL.get(n, (n, 8))[0]
        m = re.match(r"^[xw](\d+)$", n)
        if m:
            return "x" + m.group(1)
        m = re.match(r"^[vqdshb](\d+)$", n)
        return "v" + m.group(1) if m else n

    def reg(self, o):
        """(register, width, lane access) of an operand, or None"""
        o = o.strip()
        m = re.match(r"^\$(\d+)(?::(\w))?\$(\.\w+(\[\d+\])?)?$", o)
        if m:
            i = int(m.group(1))
            op = self.t["ops"][i]
            if not op.get("reg"):
                return None
            r = str(op.get("reg"))
            k = self.phys(r.strip('"')) if r.startswith('"') else "op%d" % i
            w = {"xmm_reg": 16, "ymm_reg": 32, "zmm_reg": 64, "vreg": 16, "reg_byte": 1}.get(r, 8)
            if m.group(2) in ("w", "e"):
                w = 4
            return k, w, bool(m.group(4))
        l = o.lower()
        if self.arch == "x":
            return X_FULL[l] + (False,) if l in X_FULL else None
        if l in ("xzr", "wzr"):
            return "zr", 8, False
        if l in ("sp", "wsp"):
            return "sp", 8, False
        m = re.match(r"^([xw])(\d+)$", l)
        if m:
            return "x" + m.group(2), 8 if m.group(1) == "x" else 4, False
        m = re.match(r"^([vqdshb])(\d+)(?:\.(\d*[bhsdq]))?(\[\d+\])?$", l)
        if m:
            w = A_VW.get(m.group(1), 16)
            if m.group(3) and m.group(3) in ("8b", "4h", "2s", "1d"):
                w = 8
            return "v" + m.group(2), w, bool(m.group(4))
        return None

    def get(self, s, k):
        if k == "zr":
            return ZERO
        v = s.r.get(k)
        return v if v is not None else Val(t=("init", k))

    def put(self, s, k, v):
        if k != "zr":
            s.r[k] = v

    # ---------------------------------------------------------------- addresses
    def address(self, s, o):
        """value of a memory operand's address"""
        m = re.match(r"^(?:(\w+)\s+(?:ptr|PTR)\s*)?\[(.*)\]\s*(!?)$", o.strip(), re.S)
        if not m:
            return None
        inner = m.group(2)
        size = {"qword": 8, "dword": 4, "word": 2, "byte": 1, "xmmword": 16, "ymmword": 32, "zmmword": 64}.get((m.group(1) or "").lower())
        pre = m.group(3) == "!"
        if self.arch == "x":
            v = Val()
            const = 0
            seen = False
            for sign, term in terms(inner):
                n = num(term)
                if n is not None:
                    const += n if sign > 0 else -n
                    continue
                if term.strip() == "rip":
                    continue
                r = self.reg(term)
                if r:
                    x = self.get(s, r[0])
                    v = self.plus(v, x) if seen else x
                    seen = True
                    continue
                f = [y.strip() for y in term.strip("() ").split("*")]
                rr = [self.reg(y) for y in f if self.reg(y)]
                if len(rr) == 1:
                    x = self.get(s, rr[0][0])
                    k = [num(y) for y in f if not self.reg(y)]
                    x = Val(x.a, x.p if k == [1] else E0)
                    v = self.plus(v, x) if seen else x
                    seen = True
                elif re.search(r"\$\d+\$", term):
                    i = int(re.search(r"\$(\d+)\$", term).group(1))
                    v = self.plus(v, Val(p=frozenset({(("sym", i), 0)}))) if seen else Val(p=frozenset({(("sym", i), 0)}))
                    seen = True
                else:
                    raise A.Undecided("address term `%s`" % term)
            return self.shift(v, const), size, None
        parts = [x.strip() for x in A.split_ops(inner)]
        base = self.reg(parts[0])
        if not base:
            raise A.Undecided("address `%s`" % o)
        v = self.get(s, base[0])
        if len(parts) == 1:
            return v, size, None
        n = num(parts[1])
        if n is not None:
            return self.shift(v, n), size, (base[0], n) if pre else None
        r = self.reg(parts[1])
        if r:
            x = self.get(s, r[0])
            return self.plus(v, Val(x.a, x.p if len(parts) == 2 else E0)), size, None
        if parts[1].startswith(":lo12:"):
            return v, size, None
        raise A.Undecided("address `%s`" % o)

    def plus(self, x, y, sign=1):
        if x.t and x.t[0] == "int" and not x.p and sign > 0:
            return self.shift(y, x.t[1])
        if y.t and y.t[0] == "int" and not y.p:
            return self.shift(x, sign * y.t[1])
        if x.p and y.p:
            return Val(x.a | y.a, E0 if sign < 0 else frozenset((r, None) for r, _ in x.p | y.p))
        p = x.p or (y.p if sign > 0 else E0)
        return Val(x.a | y.a, frozenset((r, None) for r, _ in p))

    def shift(self, v, n):
        if n == 0:
            return v
        t = ("int", v.t[1] + n) if v.t and v.t[0] == "int" else None
        return Val(v.a, frozenset((r, None if o is None else o + n) for r, o in v.p), t)

    # ---------------------------------------------------------------- memory
    def sink(self, ins, kind, atoms):
        if atoms:
            self.sinks.setdefault((ins.line, kind, ins.text), set()).update(atoms)

    def access(self, s, ins, v, w, store):
        if v.a:
            self.sink(ins, "memory address", v.a)
        self.addr += 1
        if not v.p:
            self.unknown.setdefault((ins.line, ins.text), "address with unknown provenance")
        for reg, off in v.p:
            if reg == "stack":
                self.stackuse = True
                sp = self.sp(s)
                if off is not None and sp is not None and (off < sp or off + w > 0):
                    self.oob[(ins.line, ins.text)] = "stack access at %d..%d outside the frame %d..0" % (off, off + w, sp)
                continue
            if reg[0] == "op":
                size = self.opinfo[reg[1]].get("size")
                if size is not None and off is not None:
                    self.checked += 1
                    if off < 0 or off + w > size:
                        self.oob[(ins.line, ins.text)] = "access at bytes %d..%d of operand %d, which points to %d bytes" % (off, off + w, reg[1], size)
                else:
                    self.unbounded += 1
                if store and not self.opinfo[reg[1]].get("mut", True):
                    self.oob[(ins.line, ins.text)] = "store through operand %d, which points to shared data" % reg[1]
            elif store:
                self.oob[(ins.line, ins.text)] = "store to a constant table"

    def sp(self, s):
        for reg, off in self.get(s, "rsp" if self.arch == "x" else "sp").p:
            if reg == "stack":
                return off
        return None

    def load(self, s, ins, v, w):
        self.loads = True
        self.access(s, ins, v, w, False)
        r = None
        for reg, off in v.p:
            if off is not None:
                x = None
                for g in range(off // 8, (off + w - 1) // 8 + 1):
                    y = s.m.get((reg, g)) or Val(s.default(reg))
                    if w != 8 or off % 8:
                        y = Val(y.a)
                    x = y if x is None else join(x, y)
            else:
                x = Val(s.default(reg).union(*[y.a for k, y in s.m.items() if k[0] == reg]))
            r = x if r is None else join(r, x)
        r = r or Val()
        return Val(r.a | v.a, r.p, r.t)

    def store(self, s, ins, v, w, x):
        self.stores = True
        self.access(s, ins, v, w, True)
        at = x.a | v.a
        for reg, off in v.p:
            self.writes.setdefault(reg, set()).update(at)
            if off is not None and len(v.p) == 1:
                for g in range(off // 8, (off + w - 1) // 8 + 1):
                    whole = off <= g * 8 and off + w >= g * 8 + 8
                    y = Val(at, x.p if w == 8 else E0, x.t if w == 8 else None)
                    if not whole:
                        o = s.m.get((reg, g)) or Val(s.default(reg))
                        y = Val(o.a | at)
                    s.m[(reg, g)] = y
            elif off is not None:
                for g in range(off // 8, (off + w - 1) // 8 + 1):
                    o = s.m.get((reg, g)) or Val(s.default(reg))
                    s.m[(reg, g)] = Val(o.a | at)
            else:
                s.b[reg] = s.default(reg) | at
                for k in list(s.m):
                    if k[0] == reg and not at <= s.m[k].a:
                        s.m[k] = Val(s.m[k].a | at)

    # ---------------------------------------------------------------- interpretation
    def start(self):
        s = State()
        for i, o in enumerate(self.t["ops"]):
            info = self.opinfo[i]
            if o["k"] in ("in", "inout"):
                k = self.phys(o["reg"].strip('"')) if o["reg"].startswith('"') else "op%d" % i
                if info.get("ptr"):
                    s.r[k] = Val(p=frozenset({(("op", i), 0)}), t=("in", k))
                else:
                    s.r[k] = Val(a=frozenset({("v", i)}), t=("in", k))
            if info.get("ptr"):
                s.b[("op", i)] = frozenset({("m", i)})
        s.r["rsp" if self.arch == "x" else "sp"] = Val(p=frozenset({("stack", 0)}), t=None)
        return s

    def run(self):
        n = len(self.ins)
        # blocks
        tg, succ = set(), {}
        for i, x in enumerate(self.ins):
            k = self.flow(x)
            if k:
                kind, lab = k
                d = self.target(lab, i) if lab else None
                if lab and d is None:
                    raise A.Undecided("branch target of `%s` not found" % x.text)
                succ[i] = (kind, d)
                if d is not None:
                    tg.add(d)
                tg.add(i + 1)
        self.exit = None
        # local subroutines are analysed per call stack (they are not recursive)
        states = {(0, ()): self.start()}
        work = [(0, ())]
        steps = 0
        while work:
            b = work.pop(0)
            steps += 1
            if steps > 20000:
                raise A.Undecided("assembly analysis did not converge")
            s = states[b].copy()
            i, cs = b
            outs = []
            while i < n:
                x = self.ins[i]
                if i in succ:
                    kind, d = succ[i]
                    self.branch(s, x, kind)
                    if kind == "jmp":
                        outs = [(d, cs)]
                    elif kind == "cond":
                        outs = [(d, cs), (i + 1, cs)]
                    elif kind == "call":
                        if i + 1 in cs or len(cs) > 6:
                            raise A.Undecided("recursive local subroutine at `%s`" % x.text)
                        outs = [(d, cs + (i + 1,))]
                    elif kind == "ret":
                        if not cs:
                            raise A.Undecided("`%s` returns out of the assembly block" % x.text)
                        outs = [(cs[-1], cs[:-1])]
                    break
                self.step(s, x)
                i += 1
                if i in tg or i == n:
                    outs = [(i, cs)]
                    break
            for o in outs:
                if o not in states:
                    states[o] = s.copy()
                    work.append(o)
                elif states[o].merge(s) and o not in work:
                    work.append(o)
        if any(k[0] == n and k[1] for k in states):
            raise A.Undecided("a local subroutine runs off the end of the assembly block")
        self.exit = states.get((n, ())) or (self.start() if n == 0 else None)
        self.reached = {k[0] for k in states}
        return self

    def target(self, lab, i):
        return A.target(self.labels, lab.replace(" ", ""), i)

    def flow(self, x):
        m = x.m
        if self.arch == "x":
            if m == "jmp":
                return "jmp", x.ops[0]
            if m == "call":
                return "call", x.ops[0]
            if m in ("ret",) or m == "repz" and x.ops == ["ret"]:
                return "ret", None
            if m[0] == "j" and m[1:] in CC:
                return "cond", x.ops[0]
            return None
        if m == "b":
            return "jmp", x.ops[0]
        if m == "bl":
            return "call", x.ops[0]
        if m == "ret":
            return "ret", None
        if m in ("cbz", "cbnz", "tbz", "tbnz"):
            return "cond", x.ops[-1]
        if m.startswith("b.") or m[0] == "b" and (m[1:] in A.A64_BCC or m[1:] in ("vs", "vc", "al", "nv")) and len(x.ops) == 1 and self.reg(x.ops[0]) is None:
            return "cond", x.ops[0]
        return None

    def branch(self, s, x, kind):
        if kind == "cond":
            self.cond += 1
            if self.arch == "x":
                for f in CC[x.m[1:]]:
                    self.sink(x, "branch", s.f.get(f, E0))
            elif x.m[0] in "ct" and x.m[1] == "b":
                self.sink(x, "branch", self.get(s, self.reg(x.ops[0])[0]).a)
            else:
                self.sink(x, "branch", s.f.get("f", E0))
        elif self.arch == "x" and kind == "call":
            self.put(s, "rsp", self.shift(self.get(s, "rsp"), -8))
        elif self.arch == "x" and kind == "ret":
            self.put(s, "rsp", self.shift(self.get(s, "rsp"), 8))
        elif kind == "call":
            self.put(s, "x30", Val())

    def val(self, s, ins, o, w=8):
        r = self.reg(o)
        if r:
            return self.get(s, r[0])
        ad = self.address(s, o) if "[" in o and not o.startswith("{") else None
        if ad:
            return self.load(s, ins, ad[0], ad[1] or w)
        n = num(o)
        if n is not None:
            return Val(t=("int", n))
        return Val()

    def step(self, s, x):
        if self.arch == "x":
            self.step_x(s, x)
        else:
            self.step_a(s, x)

    def setflags(self, s, atoms, which="czo"):
        self.flags = True
        for f in which:
            s.f[f] = frozenset(atoms)

    def dest(self, s, x, o, v, w):
        r = self.reg(o)
        if r:
            k, rw, lane = r
            if self.arch == "x" and rw < 4 and not k.startswith("v") and not k.startswith("op"):
                v = Val(v.a | self.get(s, k).a)
            elif self.arch == "x" and rw == 4 and k[0] != "v":
                v = Val(v.a, E0, v.t if v.t and v.t[0] == "int" else None)
            self.put(s, k, v)
            return
        ad = self.address(s, o)
        if ad is None:
            raise A.Undecided("destination `%s`" % o)
        self.store(s, x, ad[0], ad[1] or w, v)

    def step_x(self, s, x):
        m, ops = x.m, x.ops
        if m in ("endbr64", "nop", "repz", "lfence", "mfence", "sfence") or m.startswith("prefetch"):
            return
        if m == "vzeroall":
            for i in range(16):
                self.put(s, "v%d" % i, ZERO)
            return
        if m == "vzeroupper":
            return
        w = 8
        for o in ops:
            r = self.reg(o)
            if r:
                w = max(r[1], 1) if "[" not in " ".join(ops) or r[1] else w
                break
        if m in ("movd", "vmovd", "pinsrd", "vpbroadcastd"):
            w = 4
        elif m in ("movq", "vmovq", "vmovhpd", "pinsrq", "vpinsrq", "vpbroadcastq", "vmovlpd"):
            w = 8
        elif m in ("vpbroadcastw", "pinsrw"):
            w = 2
        elif m in ("vpbroadcastb",):
            w = 1
        elif m in ("vinserti128", "vextracti128", "vbroadcasti128"):
            w = 16
        if m == "push":
            v = self.val(s, x, ops[0])
            sp = self.shift(self.get(s, "rsp"), -8)
            self.put(s, "rsp", sp)
            self.store(s, x, sp, 8, v)
            return
        if m == "pop":
            sp = self.get(s, "rsp")
            v = self.load(s, x, sp, 8)
            self.put(s, "rsp", self.shift(sp, 8))
            self.dest(s, x, ops[0], v, 8)
            return
        if m == "lea":
            ad = self.address(s, ops[1])[0]
            self.dest(s, x, ops[0], ad, 8)
            return
        if m in ("cmp", "test", "bt", "ptest", "vptest", "comisd", "ucomisd"):
            v = E0
            for o in ops:
                v |= self.val(s, x, o, w).a
            self.setflags(s, v, "c" if m == "bt" else "czo")
            return
        if m in ("mul", "imul", "div", "idiv") and len(ops) == 1:
            a = self.val(s, x, ops[0], w).a | self.get(s, "rax").a
            if m in ("div", "idiv"):
                a |= self.get(s, "rdx").a
                self.sink(x, "division", a)
            self.put(s, "rax", Val(a))
            self.put(s, "rdx", Val(a))
            self.setflags(s, a)
            return
        if m == "mulx":
            a = self.val(s, x, ops[2], w).a | self.get(s, "rdx").a
            self.dest(s, x, ops[0], Val(a), w)
            self.dest(s, x, ops[1], Val(a), w)
            return
        if m == "xchg":
            a, b = self.val(s, x, ops[0], w), self.val(s, x, ops[1], w)
            self.dest(s, x, ops[0], b, w)
            self.dest(s, x, ops[1], a, w)
            return
        if m.startswith("rep"):
            c = self.get(s, "rcx").a
            self.sink(x, "repeat count", c)
            op = (m.split() + ops)[1]
            if op.startswith("movs"):
                v = self.load(s, x, Val(self.get(s, "rsi").a, frozenset((r, None) for r, _ in self.get(s, "rsi").p)), 1)
                self.store(s, x, Val(self.get(s, "rdi").a, frozenset((r, None) for r, _ in self.get(s, "rdi").p)), 1, v)
                self.put(s, "rsi", Val(self.get(s, "rsi").a | c, frozenset((r, None) for r, _ in self.get(s, "rsi").p)))
                self.put(s, "rdi", Val(self.get(s, "rdi").a | c, frozenset((r, None) for r, _ in self.get(s, "rdi").p)))
                self.put(s, "rcx", ZERO)
                return
            raise A.Undecided("instruction `%s`" % x.text)
        if m.startswith("cmov"):
            fl = E0
            for f in CC[m[4:]]:
                fl |= s.f.get(f, E0)
            a, b = self.val(s, x, ops[0], w), self.val(s, x, ops[1], w)
            v = join(a, b)
            self.dest(s, x, ops[0], Val(v.a | fl, v.p, None), w)
            return
        if m.startswith("set") and m[3:] in CC:
            fl = E0
            for f in CC[m[3:]]:
                fl |= s.f.get(f, E0)
            self.dest(s, x, ops[0], Val(fl), 1)
            return
        regs = [self.reg(o) for o in ops]
        same = len(ops) >= 2 and all(regs) and len({r[0] for r in regs[-2:]}) == 1
        if m in ("xor", "pxor", "vpxor", "vpxorq", "vpxord", "xorps", "vxorps") and same or m == "sub" and same:
            if not X_NOFLAG.match(m):
                self.setflags(s, E0)
            self.dest(s, x, ops[0], ZERO, w)
            return
        if m == "sbb" and same:
            c = s.f.get("c", E0)
            self.dest(s, x, ops[0], Val(c), w)
            self.setflags(s, c)
            return
        if m in ("mov", "movabs") or re.match(r"^v?mov(dq[au]\d*|q|d|aps|ups|nti)$", m):
            v = self.val(s, x, ops[1], w)
            if m not in ("mov", "movabs", "movq", "vmovq"):
                v = Val(v.a)
            self.dest(s, x, ops[0], v, w)
            return
        # generic: first operand is the destination
        srcs = ops[1:] if X_WONLY.match(m) else ops
        vs = [self.val(s, x, o, w) for o in srcs]
        a = E0.union(*[v.a for v in vs])
        if m in ("adc", "sbb", "rcl", "rcr", "adcx"):
            a |= s.f.get("c", E0)
        if m == "adox":
            a |= s.f.get("o", E0)
        v = Val(a)
        if m in ("add", "sub") and len(vs) == 2:
            v = self.plus(vs[0], vs[1], 1 if m == "add" else -1)
            v = Val(v.a, v.p, v.t)
        elif m in ("inc", "dec"):
            v = self.shift(vs[0], 1 if m == "inc" else -1)
        elif m == "and" and vs[0].p and vs[1].t and vs[1].t[0] == "int":
            v = Val(a, frozenset((r, None) for r, _ in vs[0].p))
        self.dest(s, x, ops[0], v, w)
        if m == "adcx":
            self.setflags(s, a, "c")
        elif m == "adox":
            self.setflags(s, a, "o")
        elif m in ("btr", "bts", "btc"):
            self.setflags(s, a, "c")
        elif m in ("inc", "dec"):
            self.setflags(s, a, "zo")
        elif not X_NOFLAG.match(m):
            self.setflags(s, a)

    # ---------------------------------------------------------------- aarch64
    A_RW = re.compile(r"^(movk|ml[as]|[us]ml[as]l2?|[us]sra|srsra|ursra|sli|sri|bit|bif|bsl|[us]aba\w*|aes[ed]|sha\w+|tbx|sqrdml\w+|fml[as]|xtn2|shrn2|sqxtn2|addhn2|bcax_|ins|uadalp|sadalp|bfi|bfxil)$")
    A_FSET = re.compile(r"^(adds|subs|ands|bics|adcs|sbcs|negs|ngcs|cmp|cmn|tst|ccmp|ccmn|fcmp\w*)$")
    A_FGET = re.compile(r"^(adc|adcs|sbc|sbcs|ngc|ngcs|csel|csinc|csinv|csneg|cset|csetm|cinc|cinv|cneg|ccmp|ccmn)$")

    def step_a(self, s, x):
        m, ops = x.m, x.ops
        if m in ("nop", "prfm", "hint"):
            return
        if m == "mrs":
            self.dest(s, x, ops[0], Val(), 8)
            return
        if m == "msr":
            return
        mem = [i for i, o in enumerate(ops) if "[" in o and self.reg(o) is None and not o.startswith("{")]
        if m.startswith(("ldr", "ldp", "ldur", "ld1", "ld2", "ld3", "ld4", "ldnp", "ldx", "lda")):
            i = mem[0]
            regs = []
            for o in ops[:i]:
                regs += [y for y in A.split_ops(o.strip("{} "))] if o.startswith("{") else [o]
            ad, _, pre = self.address(s, ops[i])
            ws = [self.ldw(m, r) for r in regs]
            one = ws[0] if not m.startswith("ld1r") else {"d": 8, "s": 4, "h": 2, "b": 1}[regs[0].strip()[-1].lower()]
            off = 0
            vals = []
            if m.startswith(("ld2", "ld3", "ld4")) or m.startswith("ld1r"):
                tot = one if m.startswith("ld1r") else sum(ws)
                v = self.load(s, x, ad, tot)
                vals = [Val(v.a)] * len(regs)
            else:
                for w in ws:
                    vals.append(self.load(s, x, self.shift(ad, off), w))
                    off += w
            for r, v in zip(regs, vals):
                k = self.reg(r)
                if k[2]:
                    v = Val(v.a | self.get(s, k[0]).a)
                if k[1] != 8:
                    v = Val(v.a)
                self.put(s, k[0], v)
            self.writeback(s, ops, i, pre)
            return
        if m.startswith(("str", "stp", "stur", "st1", "st2", "st3", "st4", "stnp")):
            i = mem[0]
            regs = []
            for o in ops[:i]:
                regs += [y for y in A.split_ops(o.strip("{} "))] if o.startswith("{") else [o]
            ad, _, pre = self.address(s, ops[i])
            if pre and self.reg(A.split_ops(re.sub(r"[\[\]! ]", " ", ops[i]))[0]) and pre[0] == "sp":
                self.put(s, "sp", ad)
            vs = [self.get(s, self.reg(r)[0]) for r in regs]
            ws = [self.ldw(m, r) for r in regs]
            if m.startswith(("st2", "st3", "st4")):
                self.store(s, x, ad, sum(ws), Val(E0.union(*[v.a for v in vs])))
            else:
                off = 0
                for v, w in zip(vs, ws):
                    self.store(s, x, self.shift(ad, off), w, v)
                    off += w
            self.writeback(s, ops, i, pre if not pre or pre[0] != "sp" else None)
            return
        if m == "adrp":
            i = re.search(r"\$(\d+)\$", ops[1])
            self.dest(s, x, ops[0], Val(p=frozenset({(("sym", int(i.group(1))), 0)})) if i else Val(), 8)
            return
        vs = []
        for o in ops:
            if o.startswith("{"):
                vs += [self.get(s, self.reg(y)[0]) for y in A.split_ops(o.strip("{} ")) if self.reg(y)]
            else:
                r = self.reg(o)
                n = num(o)
                vs.append(self.get(s, r[0]) if r else Val(t=("int", n)) if n is not None else Val())
        nodest = m in ("cmp", "cmn", "tst", "ccmp", "ccmn")
        d = None if nodest else self.reg(ops[0])
        if not nodest and d is None:
            raise A.Undecided("instruction `%s`" % x.text)
        rw = nodest or bool(self.A_RW.match(m)) or d[2]
        src = vs if rw else vs[1:]
        a = E0.union(*[v.a for v in src]) if src else E0
        fl = s.f.get("f", E0) if self.A_FGET.match(m) else E0
        shifted = len(ops) > 3 or m in ("mov",) and len(ops) > 2
        v = Val(a | fl)
        rr = [self.reg(o) for o in ops[1:]]
        if m == "mov" and len(ops) == 2 and not d[2] and d[1] == 8:
            v = vs[1] if rr[0] is None or rr[0][1] == 8 else Val(a)
        elif m in ("add", "adds") and not shifted and d[0][0] != "v":
            v = self.plus(vs[1], vs[2]) if len(vs) == 3 else v
            if ":lo12:" in ops[-1]:
                v = vs[1]
        elif m in ("sub", "subs") and not shifted and d[0][0] != "v":
            v = self.plus(vs[1], vs[2], -1)
        elif m in ("add", "sub") and shifted and d[0][0] != "v" and len(vs) >= 3:
            v = self.plus(vs[1], Val(vs[2].a), 1 if m == "add" else -1)
        elif m in ("eor", "sub", "bic") and len(rr) == 2 and rr[0] and rr[1] and rr[0][0] == rr[1][0]:
            v = ZERO
        elif m in ("sbc", "ngc", "sbcs") and len(rr) == 2 and rr[0] and rr[1] and rr[0][0] == rr[1][0]:
            v = Val(fl)
            a = E0
        elif m in ("csel",) and d[1] == 8:
            j = join(vs[1], vs[2])
            v = Val(j.a | fl, j.p)
        elif m in ("udiv", "sdiv"):
            self.sink(x, "division", a)
        if d and v.t and d[1] != 8 and v.t[0] != "int":
            v = Val(v.a, v.p)
        if self.A_FSET.match(m):
            self.flags = True
            s.f["f"] = frozenset(a | fl)
        if d:
            self.put(s, d[0], v)

    def ldw(self, m, r):
        if m in ("ldrb", "strb", "ldrsb", "ldurb", "sturb"):
            return 1
        if m in ("ldrh", "strh", "ldrsh"):
            return 2
        k = self.reg(r)
        if k[2]:
            return {"d": 8, "s": 4, "h": 2, "b": 1}.get(re.search(r"\.(\w)\[", r).group(1), 8)
        return k[1]

    def writeback(self, s, ops, i, pre):
        if pre:
            self.put(s, pre[0], self.shift(self.get(s, pre[0]), pre[1]))
        elif i + 1 < len(ops):
            b = self.reg(A.split_ops(ops[i].strip("[]! "))[0])
            n = num(ops[i + 1])
            v = self.get(s, b[0])
            self.put(s, b[0], self.shift(v, n) if n is not None else self.plus(v, Val(self.get(s, self.reg(ops[i + 1])[0]).a)))


def terms(e):
    """split an x86 address expression into signed terms"""
    r, d, cur, sign = [], 0, "", 1
    for ch in e:
        if ch in "([":
            d += 1
        elif ch in ")]":
            d -= 1
        if ch in "+-" and d == 0:
            if cur.strip():
                r.append((sign, cur.strip()))
                cur, sign = "", 1
            sign = -1 if ch == "-" else 1
        else:
            cur += ch
    if cur.strip():
        r.append((sign, cur.strip()))
    return r
