"""Inline assembly: parsing, and an inductive (cut-point) analysis of byte loops.

A template is parsed into labelled instructions.  `walk` enumerates the acyclic segments between loop heads with values that are
affine in the state at the segment's start; the callers check an inductive invariant on each segment.  Nothing is executed."""
import re


class Ins:
    __slots__ = ("m", "ops", "line", "text")

    def __init__(self, m, ops, line, text):
        self.m, self.ops, self.line, self.text = m, ops, line, text

    def __repr__(self):
        return self.text


def split_ops(s):
    r, d, cur = [], 0, ""
    for ch in s:
        if ch in "[{(":
            d += 1
        elif ch in "]})":
            d -= 1
        if ch == "," and d == 0:
            r.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        r.append(cur.strip())
    return r


def parse(t):
    """asm terminator -> (list of Ins, labels: [(name, position)])"""
    txt = ""
    for p in t["tmpl"]:
        txt += p if isinstance(p, str) else "$%d%s$" % (p[0], ":" + p[1] if p[1] else "")
    ins, labels = [], []
    lines = t.get("lines") or []
    for n, l in enumerate(txt.split("\n")):
        l = re.sub(r"//.*|/\*.*?\*/", "", l)
        for part in l.split(";"):
            s = part.strip()
            while True:
                m = re.match(r"([.\w]+):\s*(.*)$", s)
                if not m:
                    break
                labels.append((m.group(1), len(ins)))
                s = m.group(2)
            if not s or s.startswith("."):
                continue
            m = re.match(r"(\S+)\s*(.*)$", s)
            mn, rest = m.group(1).lower(), m.group(2)
            if mn in ("rep", "lock", "repe", "repne"):
                m = re.match(r"(\S+)\s*(.*)$", rest)
                mn, rest = mn + " " + m.group(1).lower(), m.group(2)
            ins.append(Ins(mn, split_ops(rest), lines[n] if n < len(lines) else t.get("line"), s))
    return ins, labels


def target(labels, name, pos):
    m = re.match(r"(\d+)([fb])$", name)
    if m:
        n, d = m.groups()
        c = [p for l, p in labels if l == n]
        c = [p for p in c if (p > pos if d == "f" else p <= pos)]
        return None if not c else (min(c) if d == "f" else max(c))
    c = [p for l, p in labels if l == name]
    return c[0] if len(c) == 1 else None


class Undecided(Exception):
    pass


# affine values: (const, {sym: coeff}) ; other values are opaque tuples
def aff(c=0, **k):
    return ("aff", c, tuple(sorted(k.items())))


def A(name):
    return ("aff", 0, ((name, 1),))


def aadd(x, y, s=1):
    if x[0] != "aff" or y[0] != "aff":
        raise Undecided("arithmetic on a value that is not affine")
    d = dict(x[2])
    for k, v in y[2]:
        d[k] = d.get(k, 0) + s * v
    return ("aff", x[1] + s * y[1], tuple(sorted((k, v) for k, v in d.items() if v)))


X86_JCC = {"je": "eq", "jz": "eq", "jne": "ne", "jnz": "ne", "jl": "lt", "jb": "lt", "jc": "lt", "jge": "ge", "jae": "ge", "jnc": "ge", "jg": "gt", "ja": "gt", "jle": "le", "jbe": "le", "js": "lt", "jns": "ge"}
A64_BCC = {"eq": "eq", "ne": "ne", "lt": "lt", "lo": "lt", "cc": "lt", "mi": "lt", "ge": "ge", "hs": "ge", "cs": "ge", "pl": "ge", "gt": "gt", "hi": "gt", "le": "le", "ls": "le"}
NEG = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "gt": "le", "le": "gt"}


class Seg:
    """one acyclic segment between cut points"""

    def __init__(self):
        self.reg = {}
        self.cons = []  # (rel, affine) meaning affine rel 0
        self.writes = []  # (address affine, width, value)
        self.flag = None
        self.start = self.end = None

    def copy(self):
        s = Seg()
        s.reg, s.cons, s.writes, s.flag, s.start = dict(self.reg), list(self.cons), list(self.writes), self.flag, self.start
        return s


def regname(o):
    m = re.match(r"\$(\d+)(?::\w)?\$(\.\w+)?$", o)
    if m:
        return "op%s" % m.group(1)
    m = re.match(r"([a-z]\w*)(\.\w+)?$", o)
    return m.group(1) if m else None


def imm(o):
    m = re.match(r"#?(-?(0x[0-9a-fA-F]+|\d+))$", o)
    return int(m.group(1), 0) if m else None


def walk(t, arch, init, havoc):
    """segments of the template; `init` maps operand names to values at entry, `havoc(label position)` gives the values at a loop head"""
    ins, labels = parse(t)
    # cut points: targets of backward jumps
    succ = {}
    heads = set()
    for i, x in enumerate(ins):
        if branchy(x, arch):
            d = target(labels, x.ops[-1], i)
            if d is None:
                raise Undecided("branch target of `%s` not found" % x.text)
            succ[i] = d
            if d <= i:
                heads.add(d)
    out = []
    work = [(None, 0, dict(init))] + [(h, h, dict(havoc(h))) for h in sorted(heads)]
    for start, pos, regs in work:
        s0 = Seg()
        s0.reg, s0.start = regs, start
        st = [(s0, pos, True)]
        n = 0
        while st:
            s, i, first = st.pop()
            n += 1
            if n > 4000:
                raise Undecided("too many paths")
            if i in heads and not first or i >= len(ins):
                s.end = i if i < len(ins) else None
                out.append(s)
                continue
            x = ins[i]
            if i in succ:
                rel = relation(x, arch, s)
                if rel is None:
                    st.append((s, succ[i], False))
                    continue
                a, b = s.copy(), s.copy()
                a.cons.append(rel)
                b.cons.append((NEG[rel[0]], rel[1]))
                st.append((a, succ[i], False))
                st.append((b, i + 1, False))
                continue
            step(x, arch, s, t)
            st.append((s, i + 1, False))
    return out, heads


def branchy(x, arch):
    if arch == "x":
        return x.m == "jmp" or x.m in X86_JCC
    return x.m in ("b", "cbz", "cbnz") or x.m.startswith("b.") or (x.m[:1] == "b" and x.m[1:] in A64_BCC and len(x.ops) == 1)


def relation(x, arch, s):
    if x.m in ("jmp", "b"):
        return None
    if x.m in ("cbz", "cbnz"):
        return ("eq" if x.m == "cbz" else "ne", val(s, x.ops[0], x))
    c = X86_JCC.get(x.m) if arch == "x" else A64_BCC.get(x.m[2:] if x.m.startswith("b.") else x.m[1:])
    if c is None or s.flag is None:
        raise Undecided("condition of `%s`" % x.text)
    return (c, s.flag)


def val(s, o, x):
    i = imm(o)
    if i is not None:
        return ("aff", i, ())
    r = regname(o)
    if r in ("wzr", "xzr"):
        return ("aff", 0, ())
    if r is None or r not in s.reg:
        raise Undecided("operand %s of `%s`" % (o, x.text))
    return s.reg[r]


def memop(s, o, x):
    """address, and register to write back with its new value (aarch64 pre/post handled by caller)"""
    m = re.match(r"(?:(byte|word|dword|qword|xmmword|ymmword|zmmword) ptr )?\[(.*)\]$", o)
    if not m:
        return None
    a = ("aff", 0, ())
    for p in re.split(r"\s*(?=[+-])|,", m.group(2)):
        p = p.strip()
        if not p:
            continue
        sg = 1
        if p[0] in "+-":
            sg = -1 if p[0] == "-" else 1
            p = p[1:].strip()
        a = aadd(a, val(s, p, x), sg)
    return a, {"byte": 1, "word": 2, "dword": 4, "qword": 8, "xmmword": 16, "ymmword": 32, "zmmword": 64}.get(m.group(1))


def opwidth(t, o):
    m = re.match(r"\$(\d+)", o)
    if not m:
        return {"al": 1, "cl": 1, "dl": 1, "bl": 1}.get(o)
    return {"reg_byte": 1, "xmm_reg": 16, "ymm_reg": 32, "zmm_reg": 64, "reg": 8}.get(t["ops"][int(m.group(1))]["reg"])


def step(x, arch, s, t):
    m, o = x.m, x.ops

    def setr(r, v):
        n = regname(r)
        if n is None:
            raise Undecided("destination of `%s`" % x.text)
        s.reg[n] = v

    def xor(a, b):
        if a == b:
            return ("aff", 0, ())
        return ("xor",) + tuple(sorted((a, b), key=repr))

    def orr(a, b):
        z = ("aff", 0, ())
        if a == z:
            return b
        if b == z:
            return a
        return ("or",) + tuple(sorted((a, b), key=repr))

    def src(q):
        mo = memop(s, q, x)
        if mo is None:
            return val(s, q, x)
        w = mo[1] or opwidth(t, o[0])
        return ("mem", mo[0], w)
    if arch == "x":
        if m in ("cmp",):
            s.flag = aadd(val(s, o[0], x), val(s, o[1], x), -1)
            return
        if m == "test" and o[0] == o[1]:
            s.flag = val(s, o[0], x)
            return
        if m in ("add", "sub", "inc", "dec"):
            k = ("aff", 1, ()) if len(o) == 1 else val(s, o[1], x)
            v = aadd(val(s, o[0], x), k, 1 if m in ("add", "inc") else -1)
            setr(o[0], v)
            s.flag = v
            return
        if m == "lea":
            setr(o[0], memop(s, o[1], x)[0])
            return
        if m in ("vpxor", "vpxorq", "vpxord", "pxor", "xor", "vxorps", "vpxord"):
            a, b = (o[1], o[2]) if len(o) == 3 else (o[0], o[1])
            if a == b:
                setr(o[0], ("aff", 0, ()))
            else:
                setr(o[0], xor(val(s, a, x), src(b)))
            s.flag = None
            return
        if m == "or":
            setr(o[0], orr(val(s, o[0], x), src(o[1])))
            s.flag = None
            return
        if m in ("mov", "movzx", "vmovdqu", "vmovdqa", "movdqu", "vmovups", "vmovdqu8", "vmovdqu64"):
            mo = memop(s, o[0], x)
            if mo:
                w = mo[1] or opwidth(t, o[1])
                if w is None:
                    raise Undecided("width of `%s`" % x.text)
                s.writes.append((mo[0], w, val(s, o[1], x)))
            else:
                setr(o[0], src(o[1]))
            return
        if m == "rep stosb":
            s.writes.append((s.reg.get("rdi"), s.reg.get("rcx"), s.reg.get("al", s.reg.get("rax"))))
            return
        if m in ("nop",):
            return
    else:
        if m == "cmp":
            s.flag = aadd(val(s, o[0], x), val(s, o[1], x), -1)
            return
        if m in ("add", "sub", "adds", "subs"):
            v = aadd(val(s, o[1], x), val(s, o[2], x), 1 if m[0] == "a" else -1)
            setr(o[0], v)
            if m[-1] == "s":
                s.flag = v
            return
        if m == "mov":
            setr(o[0], val(s, o[1], x))
            return
        if m == "eor":
            setr(o[0], ("aff", 0, ()) if o[1] == o[2] else xor(val(s, o[1], x), val(s, o[2], x)))
            return
        if m == "movi":
            setr(o[0], val(s, o[1], x))
            return
        if m == "orr":
            setr(o[0], orr(val(s, o[1], x), val(s, o[2], x)))
            return
        if m in ("ldrb", "strb", "st1", "str", "stp", "ldr"):
            data = [o[0]]
            k = 1
            if m == "stp":
                data, k = o[:2], 2
            ad = o[k]
            pre = ad.endswith("!")
            post = o[k + 1] if len(o) > k + 1 else None
            base = re.match(r"\[([^,\]]*)", ad).group(1).strip()
            adr, _ = memop(s, ad.rstrip("!"), x)
            if pre:
                setr(base, adr)
            if m in ("ldrb", "ldr"):
                setr(data[0], ("mem", adr, 1 if m == "ldrb" else 8))
            else:
                for j, d in enumerate(data):
                    d0 = d
                    g = re.match(r"\{(.*)\}$", d.strip())
                    regs = [z.strip() for z in g.group(1).split(",")] if g else [d]
                    for z in regs:
                        w = 1 if m == "strb" else 16 if (g or re.match(r"\$\d+:q\$|q\d+$", z)) else 8 if not z.startswith("w") else 4
                        s.writes.append((aadd(adr, ("aff", 16 * regs.index(z) if g else j * w, ())), w, val(s, re.sub(r"\.\w+$", "", z), x)))
            if post is not None:
                setr(base, aadd(val(s, base, x), val(s, post, x)))
            return
        if m == "nop":
            return
    raise Undecided("instruction `%s` is not modelled" % x.text)


def lo_hi(cons, sym):
    """bounds on sym from constraints affine in it (integers, sym >= 0)"""
    lo, hi = 0, None
    for rel, a in cons:
        d = dict(a[2]) if a[0] == "aff" else None
        if d is None or set(d) != {sym} or abs(d[sym]) != 1:
            continue
        c, k = a[1], d[sym]
        if k == -1:
            c, rel = -c, {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(rel, rel)
        # sym + c rel 0
        b = -c
        if rel == "lt":
            hi = b - 1 if hi is None else min(hi, b - 1)
        elif rel == "le":
            hi = b if hi is None else min(hi, b)
        elif rel == "gt":
            lo = max(lo, b + 1)
        elif rel == "ge":
            lo = max(lo, b)
        elif rel == "eq":
            lo, hi = max(lo, b), b if hi is None else min(hi, b)
        elif rel == "ne":
            if b == lo:
                lo += 1
    return lo, hi


def check_zeroing(t, arch, ptr, ln):
    """the template stores zero to exactly [ptr, ptr+len) for every len >= 0. ptr, ln: operand indices. Returns error or None"""
    P, L = "op%d" % ptr, "op%d" % ln

    def init():
        r = {}
        for i, op in enumerate(t["ops"]):
            r["op%d" % i] = ("opaque", i)
            if op.get("v") and op["v"][0] == "k":
                r["op%d" % i] = ("aff", op["v"][1].get("v", 0), ())
        r[P], r[L] = A("p"), A("n")
        return r
    # registers that hold zero everywhere after their initialisation and are never changed
    ins, labels = parse(t)
    const0 = {}
    e = init()
    segs0, heads = walk(t, arch, e, lambda h: e)
    for s in segs0:
        if s.start is None:
            for k, v in s.reg.items():
                const0.setdefault(k, set()).add(repr(v))
    zero = {k for k, v in const0.items() if v == {repr(("aff", 0, ()))}}
    e2 = init()
    for k in zero:
        if k not in (P, L):
            e2[k] = ("aff", 0, ())
    segs, heads = walk(t, arch, init(), lambda h: e2)
    for s in segs:
        for k in zero:
            if k in e2 and k not in (P, L) and s.reg.get(k) != ("aff", 0, ()):
                return "a register taken for zero does not stay zero"
    for s in segs:
        lo, hi = lo_hi(s.cons, "n")
        if hi is not None and lo > hi:
            continue  # infeasible
        # writes must tile [p, p') from p upwards
        pos = A("p")
        for w in sorted(s.writes, key=lambda w: w[0][1] if w[0] and w[0][0] == "aff" else 0):
            if w[2] != ("aff", 0, ()):
                return "a store does not write zero"
            if w[0] != pos:
                return "a store at %s leaves a gap or overlaps" % (w[0],)
            if isinstance(w[1], tuple):
                if w[1] != A("n"):
                    return "a string store of unknown length"
                pos = aadd(pos, w[1])
            else:
                pos = aadd(pos, ("aff", w[1], ()))
        done = aadd(pos, A("p"), -1)  # bytes written on this segment
        rest = aadd(A("n"), done, -1)  # bytes left
        if s.end is None:
            # all n bytes done: rest == 0 under the constraints
            c, d = rest[1], dict(rest[2])
            if not d:
                if c != 0:
                    return "the loop ends with bytes left over"
            elif d == {"n": 1}:
                if not (lo == hi == -c):
                    return "the code ends with %s..%s byte(s) not yet zeroed" % (lo + c, hi + c if hi is not None else "any")
            else:
                return "undecided remainder"
        else:
            if s.reg[P] != pos:
                return "the pointer does not advance by exactly the bytes written"
            if s.reg[L] != rest:
                return "the remaining length does not shrink by exactly the bytes written"
            c, d = rest[1], dict(rest[2])
            if d != {"n": 1} or lo + c < 0:
                return "the remaining length can go below zero"
            if s.start is not None and s.start == s.end and pos == A("p"):
                return "a loop makes no progress"
    return None


def check_compare(t, arch, a, b, ln, acc):
    """acc becomes the OR of a[i]^b[i] over every i in [0,len) (starting from acc). Returns error or None"""
    def init():
        r = {}
        for i, op in enumerate(t["ops"]):
            r["op%d" % i] = ("opaque", i)
            if op.get("v") and op["v"][0] == "k":
                r["op%d" % i] = ("aff", op["v"][1].get("v", 0), ())
        r["op%d" % a], r["op%d" % b], r["op%d" % ln] = A("a"), A("b"), A("n")
        r["op%d" % acc] = ("acc",)
        return r

    def head(h):
        r = init()
        for i, op in enumerate(t["ops"]):
            if i not in (a, b, ln, acc):
                r["op%d" % i] = ("opaque", i)
        return r
    segs, heads = walk(t, arch, init(), head)
    for s in segs:
        lo, hi = lo_hi(s.cons, "n")
        if hi is not None and lo > hi:
            continue
        if s.writes:
            return "the comparison writes memory"
        # terms folded into acc
        got, st, extra = set(), [s.reg["op%d" % acc]], False
        keep = False
        while st:
            v = st.pop()
            if v[0] == "or":
                st.extend(v[1:])
            elif v == ("acc",):
                keep = True
            elif v[0] == "xor" and all(z[0] == "mem" for z in v[1:]):
                got.add(v)
            else:
                extra = True
        if not keep:
            return "differences found earlier are dropped"
        if extra:
            return "something other than a byte difference is folded in"
        pa = pb = 0
        A_ = sorted((z[1][1], z[2]) for v in got for z in v[1:] if dict(z[1][2]) == {"a": 1})
        B_ = sorted((z[1][1], z[2]) for v in got for z in v[1:] if dict(z[1][2]) == {"b": 1})
        if len(A_) != len(got) or A_ != B_:
            return "the two sides are not compared at the same offset"
        for off, w in A_:
            if off != pa:
                return "bytes are skipped or compared twice"
            pa += w
        rest = aadd(A("n"), ("aff", pa, ()), -1)
        if s.end is None:
            if not (lo == hi == pa):
                return "the comparison ends with bytes not compared"
        else:
            if s.reg["op%d" % a] != aadd(A("a"), ("aff", pa, ())) or s.reg["op%d" % b] != aadd(A("b"), ("aff", pa, ())) or s.reg["op%d" % ln] != rest:
                return "pointers or length do not advance by exactly the bytes compared"
            if lo - pa < 0:
                return "the remaining length can go below zero"
            if s.start is not None and s.start == s.end and pa == 0:
                return "a loop makes no progress"
    return None
