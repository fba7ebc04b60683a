"""Secret-dependence analysis of MIR: flow-, field- and context-sensitive information flow.

Values are trees: `t` = this scalar (or this enum's variant) depends on a secret; `d` = the content below depends on a secret, its shape
(variants, lengths, usize fields) does not; `p` = the places a pointer may refer to; `f` = fields known separately.  Arrays, slices and
vectors are represented by their (merged) element.  Each function is analysed once per distinct input shape.  Nothing is executed."""
import re
from . import asm as A
from . import isa


class V:
    __slots__ = ("t", "d", "p", "f", "any", "h")
    pool = {}

    @staticmethod
    def make(t=False, d=False, p=frozenset(), f=None):
        f = tuple(sorted(((k, v) for k, v in (f or {}).items()), key=lambda x: repr(x[0])))
        k = (t, d, p, tuple((a, id(b)) for a, b in f))
        v = V.pool.get(k)
        if v is None:
            v = V()
            v.t, v.d, v.p, v.f = t, d, p, dict(f)
            v.any = t or d or any(x.any for _, x in f)
            v.h = None
            V.pool[k] = v
        return v

    def __repr__(self):
        return "V(%s%s%s%s)" % ("t" if self.t else "", "d" if self.d else "", set(self.p) or "", self.f or "")


CLEAN = V.make()
TAINT = V.make(t=True, d=True)
DEEP = V.make(d=True)
_JM = {}


def child(v, k):
    c = v.f.get(k)
    if c is not None:
        return c
    return DEEP if v.d else CLEAN


def join(a, b):
    if a is b:
        return a
    k = (id(a), id(b)) if id(a) < id(b) else (id(b), id(a))
    r = _JM.get(k)
    if r is None:
        f = {}
        for x in set(a.f) | set(b.f):
            f[x] = join(child(a, x), child(b, x))
        # a field one side knows to be clean and the other holds as part of a deep secret stays separate
        r = V.make(a.t or b.t, a.d or b.d, a.p | b.p, f)
        _JM[k] = r
    return r


def setchild(v, path, new, weak):
    """v with the value at path replaced by (weak: joined with) new"""
    if not path:
        return join(v, new) if weak else new
    k = path[0]
    f = dict(v.f)
    f[k] = setchild(child(v, k), path[1:], new, weak)
    return V.make(v.t, v.d, v.p, f)


def at(v, path):
    for k in path:
        v = child(v, k)
    return v


def scrub(v):
    """v with every secret mark removed (pointers and shape kept)"""
    if not v.any:
        return v
    return V.make(False, False, v.p, {k: scrub(x) for k, x in v.f.items()})


def smear(v):
    """v with all content marked secret (pointers kept)"""
    return V.make(v.t, True, v.p, {k: smear(x) for k, x in v.f.items()})


class Loc(tuple):
    """(object, path, weak)"""


def loc(o, path=(), weak=False):
    if len(path) > 8:
        path, weak = path[:8], True
    return (o, tuple(path), weak)


class St:
    __slots__ = ("m",)

    def __init__(self, m=None):
        self.m = m if m is not None else {}

    def copy(self):
        return St(dict(self.m))

    def merge(self, o):
        ch = False
        for k, v in o.m.items():
            w = self.m.get(k)
            n = v if w is None else join(w, v)
            if n is not w:
                self.m[k] = n
                ch = True
        return ch


class Sink:
    __slots__ = ("key", "file", "line", "kind", "text", "chain")

    def __init__(self, key, file, line, kind, text, chain=()):
        self.key, self.file, self.line, self.kind, self.text, self.chain = key, file, line, kind, text, chain

    def id(self):
        return (self.key, self.kind, self.text, self.line)


NUM = re.compile(r"^core::num::<impl [iu](8|16|32|64|128|size)>::(\w+)$")
PANIC = re.compile(r"^core::(panicking|fmt|result::unwrap_failed|option::(expect|unwrap)_failed|slice::index::\w+_fail)|^std::io::|^core::option::\w+_failed|^core::array::\w*panic")
ITER_SAME = re.compile(r"Iterator>?::(rev|by_ref|skip|take|step_by|chain|peekable|fuse|copied|cloned|cycle|inspect)$|IntoIterator.*::into_iter$")
SLICE_REF = re.compile(r"^core::slice::<impl \[T\]>::(as_ptr|as_mut_ptr|as_chunks_unchecked|as_array|as_mut_array|as_slice|as_mut_slice)$|::(as_ref|as_mut|borrow|borrow_mut|deref|deref_mut|as_slice|as_mut_slice|as_flattened|as_flattened_mut)$")
ITER_NEW = re.compile(r"^core::slice::<impl \[T\]>::(iter|iter_mut|chunks\w*|rchunks\w*|windows|array_chunks|array_windows|split\w*_inclusive)$")
PARTS = re.compile(r"^core::slice::<impl \[T\]>::(split_at\w*|as_chunks\w*|as_rchunks\w*|split_first_chunk|split_last_chunk)$")
OPTREF = re.compile(r"^core::slice::<impl \[T\]>::(get|get_mut|first|first_mut|last|last_mut|first_chunk\w*|last_chunk\w*|get_unchecked\w*)$")
OPTPARTS = re.compile(r"^core::slice::<impl \[T\]>::(split_first\w*|split_last\w*|split_at_checked|split_at_mut_checked)$")
CMPS = re.compile(r"^core::slice::<impl \[T\]>::(contains|starts_with|ends_with|binary_search\w*|iter_position|sort\w*|strip_prefix|strip_suffix|is_sorted)$|SlicePartialEq|SlicePartialOrd|compare_bytes|raw_eq|memcmp|bcmp")


class Taint:
    def __init__(self, crate, arch, public_types, blockinfo, dispatch=None, overrides=None, rng=None):
        self.c, self.arch = crate, arch
        self.types, self.fns = crate.types, crate.fns
        self.public = public_types
        self.blockinfo = blockinfo  # (key, block terminator) -> isa.Asm
        self.impls = {}
        for im in crate.impls:
            if im.get("trait"):
                for nm, k in im["items"]:
                    self.impls.setdefault(im["trait"] + "::" + nm, []).append(k)
        self.byname = {}
        for k, f in self.fns.items():
            self.byname.setdefault(f["path"], []).append(k)
        self.memo = {}
        self.busy = {}
        self.overrides = overrides or []
        self.visited = {}
        self.unmodelled = {}
        self.declassified = {}
        self.depth = 0
        self.pub_memo = {}
        self.mode = frozenset()
        self.makes_public = lambda f: False
        self.secret_fns = set()
        self.points = {}
        self.rejections = set()

    # ------------------------------------------------------------ types
    def ty(self, t):
        return self.types[t] if t is not None else {"k": "?", "s": "?"}

    def is_public_ty(self, t):
        if t is None:
            return False
        r = self.pub_memo.get(t)
        if r is None:
            ty = self.types[t]
            r = ty["k"] == "adt" and bool(self.public.search(ty.get("path", "")))
            self.pub_memo[t] = r
        return r

    def scalar(self, v, t):
        """does the scalar of type t held in v depend on a secret?"""
        ty = self.ty(t)
        if ty["s"] in ("usize", "isize"):
            return v.t
        if ty["k"] in ("ref", "ptr"):
            return v.t
        return v.t or v.d

    # ------------------------------------------------------------ places
    def place(self, fr, st, pl, where=None):
        """locations a place denotes, its type, and whether reaching it leaks"""
        cur = [loc(("L", pl[0]))]
        t = fr.f["body"]["locals"][pl[0]][0]
        variant = 0
        pub = self.is_public_ty(t)
        for e in pl[1]:
            ty = self.ty(t)
            if e == "*":
                pub = False
                ptr = self.read(st, cur, t)
                if ptr.t and where:
                    self.sink(fr, where, "memory access through a secret-dependent address", "")
                nxt = list(ptr.p)
                if not nxt:
                    nxt = [loc(("D",))] if ptr.d else [loc(("U",))]
                cur = nxt
                t = ty.get("e") if ty["k"] in ("ref", "ptr") else (ty.get("args") or [None])[0] if ty["k"] == "adt" else None
                variant = 0
            elif e[0] == "f":
                cur = [loc(o, p + ((variant, e[1]),), w) for o, p, w in cur]
                t = e[2]
                variant = 0
            elif e[0] == "d":
                variant = e[1]
            elif e[0] in ("i", "ci", "ss"):
                if e[0] == "i":
                    iv = st.m.get(("L", e[1]), CLEAN)
                    if where:
                        self.seen(fr, "array indexings")
                    if iv.t and where:
                        self.sink(fr, where, "array access at a secret-dependent index", fr.name(e[1]))
                if e[0] != "ss":
                    t = ty.get("e")
                cur = [(o, p, True) for o, p, w in cur]
            else:
                cur = [loc(("U",))]
                t = None
            if t is not None and not pub and self.is_public_ty(t):
                pub = True
        if pub:
            for l in cur:
                if l[0][0] == "D":
                    cur = [loc(("U",)) if x[0][0] == "D" else x for x in cur]
                elif l[0][0] != "U":
                    v = at(st.m.get(l[0], CLEAN), l[1])
                    if v.any:
                        self.write(st, [l], scrub(v))
        return cur, t

    def read(self, st, locs, t):
        if self.is_public_ty(t):
            r = CLEAN
            for o, p, w in locs:
                if o[0] not in "DU":
                    r = join(r, scrub(at(st.m.get(o, CLEAN), p)))
            return r
        r = None
        for o, p, w in locs:
            if o[0] == "D":
                v = DEEP
            elif o[0] == "U":
                v = CLEAN
            else:
                v = at(st.m.get(o, CLEAN), p)
            r = v if r is None else join(r, v)
        return r if r is not None else CLEAN

    def write(self, st, locs, v, t=None):
        if self.is_public_ty(t):
            v = scrub(v)
        strong = len(locs) == 1
        for o, p, w in locs:
            if o[0] in "DU":
                continue
            st.m[o] = setchild(st.m.get(o, CLEAN), p, v, w or not strong)

    def pointee(self, st, v, t=None):
        """content of what v points to (v itself when it is not a pointer)"""
        if v.p:
            return self.read(st, v.p, t)
        return v

    def content(self, st, v, n=0):
        """does anything v holds or points to depend on a secret?"""
        if v.t or v.d:
            return True
        if n > 5:
            return False
        for o, p, w in v.p:
            if o[0] == "D":
                return True
            if o[0] != "U" and self.content(st, at(st.m.get(o, CLEAN), p), n + 1):
                return True
        return any(self.content(st, x, n + 1) for x in v.f.values())

    # ------------------------------------------------------------ sinks
    def sink(self, fr, line, kind, text):
        f = fr.f
        s = Sink(fr.key, f["file"], line, kind, text)
        fr.sinks.setdefault(s.id(), s)

    def seen(self, fr, what, sub=None):
        self.points.setdefault(what, set()).add((fr.key, fr.line, sub))

    # ------------------------------------------------------------ rvalues
    def operand(self, fr, st, o, line=None):
        if o[0] == "k":
            return self.const(o[1])
        cur, t = self.place(fr, st, o[1], line or fr.line)
        return self.read(st, cur, t)

    def const(self, k):
        return CLEAN

    def op_ty(self, fr, o):
        if o[0] == "k":
            return o[1].get("ty")
        t = fr.f["body"]["locals"][o[1][0]][0]
        for e in o[1][1]:
            ty = self.ty(t)
            if e == "*":
                t = ty.get("e") if ty["k"] in ("ref", "ptr") else None
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = ty.get("e")
            elif e[0] == "d" or e[0] == "ss":
                pass
            else:
                t = None
        return t

    def rvalue(self, fr, st, rv, line, dty):
        k = rv[0]
        if k == "use":
            return self.operand(fr, st, rv[1], line)
        if k == "rep":
            return self.operand(fr, st, rv[1], line)
        if k in ("ref", "raw"):
            cur, t = self.place(fr, st, rv[2], line)
            return V.make(p=frozenset(cur))
        if k == "cast":
            v = self.operand(fr, st, rv[2], line)
            if rv[1].startswith(("IntToInt", "FloatToInt", "IntToFloat", "FloatToFloat")):
                return V.make(t=self.scalar(v, self.op_ty(fr, rv[2])))
            if rv[1].startswith("Transmute"):
                st_, dt = self.ty(self.op_ty(fr, rv[2])), self.ty(dty)
                if st_["k"] in ("ref", "ptr") and dt["k"] in ("ref", "ptr") or st_["s"] == dt["s"]:
                    return v
                x = self.content_v(v)
                return V.make(t=x and dt["k"] in ("uint", "int", "bool", "char", "float"), d=x, p=allptr(v))
            if rv[1].startswith("PointerExpose"):
                return V.make(t=v.t)
            return v
        if k == "bin":
            a, b = self.operand(fr, st, rv[2], line), self.operand(fr, st, rv[3], line)
            ta, tb = self.scalar(a, self.op_ty(fr, rv[2])), self.scalar(b, self.op_ty(fr, rv[3]))
            t = ta or tb
            op = rv[1]
            if op in ("Div", "Rem") and t:
                self.sink(fr, line, "division with a secret-dependent operand", op)
            if op == "Offset":
                return V.make(t=a.t or tb, d=a.d, p=frozenset((o, p, True) for o, p, w in a.p))
            if op.endswith("WithOverflow"):
                x = V.make(t=t)
                return V.make(f={(0, 0): x, (0, 1): x})
            return V.make(t=t)
        if k == "un":
            v = self.operand(fr, st, rv[2], line)
            if rv[1] == "PtrMetadata":
                return CLEAN
            return V.make(t=self.scalar(v, self.op_ty(fr, rv[2])))
        if k == "disc":
            cur, t = self.place(fr, st, rv[1], line)
            return V.make(t=self.read(st, cur, t).t)
        if k == "agg":
            vs = [self.operand(fr, st, o, line) for o in rv[3]]
            if rv[1] == "array":
                r = CLEAN
                for v in vs:
                    r = join(r, v)
                return r
            if rv[1] == "rawptr":
                return vs[0]
            vi = rv[2]["vi"] if rv[1] == "adt" else 0
            return V.make(f={(vi, i): v for i, v in enumerate(vs)})
        if k == "tls":
            return V.make(p=frozenset([loc(("U",))]))
        return CLEAN

    def content_v(self, v):
        return v.any

    # ------------------------------------------------------------ functions
    def call_fn(self, key, args, st, fr=None):
        """analyse fn `key` with argument values `args` (pointing into st); updates st; returns its value"""
        # translate into the callee's name space
        objs, back, omap = {}, {}, {}

        def tr(v, depth):
            p = set()
            if v.p:
                if depth > 5:
                    return DEEP if self.content(st, v) else CLEAN
                k = v.p
                if k not in omap:
                    n = ("A", len(omap))
                    omap[k] = n
                    back[n] = k
                    objs[n] = CLEAN
                    objs[n] = tr(self.read(st, k, None), depth + 1)
                p.add(loc(omap[k]))
            return V.make(v.t, v.d, frozenset(p), {k: tr(x, depth) for k, x in v.f.items()})

        av = [tr(a, 0) for a in args]
        sig = (self.mode, key, tuple(id(a) for a in av), tuple((o, id(v)) for o, v in sorted(objs.items())))
        r = self.memo.get(sig)
        if r is None:
            if sig in self.busy or self.depth > 60:
                r = self.busy.get(sig) or (CLEAN, dict(objs), {})
            else:
                r = self.analyse(key, sig, av, objs)
        ret, out, sinks = r

        def un(v, depth=0):
            p = set()
            for o, path, w in v.p:
                if o in back:
                    for bo, bp, bw in back[o]:
                        p.add(loc(bo, bp + path, bw or w))
                elif o[0] in "DUS":
                    p.add((o, path, w))
            return V.make(v.t, v.d, frozenset(p), {k: un(x) for k, x in v.f.items()})

        for o, before in objs.items():
            after = out.get(o, before)
            if after is not before:
                self.write(st, back[o], un(after))
        if fr is not None:
            for i, s in sinks.items():
                if i not in fr.sinks:
                    fr.sinks[i] = Sink(s.key, s.file, s.line, s.kind, s.text, (fr.key,) + s.chain if len(s.chain) < 8 else s.chain)
        return un(ret)

    def analyse(self, key, sig, av, objs):
        f = self.fns[key]
        self.busy[sig] = None
        self.depth += 1
        r = None
        for _ in range(3):
            r = self.body(key, f, av, objs)
            if self.busy[sig] is None or self.busy[sig] == r or not f.get("_rec"):
                break
            self.busy[sig] = r
        self.depth -= 1
        del self.busy[sig]
        self.memo[sig] = r
        self.visited[key] = self.visited.get(key, 0) + 1
        if any(a.any for a in av) or any(o.any for o in objs.values()):
            self.secret_fns.add(key)
        return r

    def body(self, key, f, av, objs):
        fr = Frame(key, f)
        body = f["body"]
        s0 = St(dict(objs))
        for i, v in enumerate(av):
            s0.m[("L", i + 1)] = v
        blocks = body["blocks"]
        states = {0: s0}
        work = [0]
        rets = St()
        rv = None
        n = 0
        order = {}
        while work:
            n += 1
            if n > 60 * len(blocks) + 200:
                self.sink(fr, f["line"], "analysis did not converge", "")
                break
            work.sort()
            b = work.pop(0)
            st = states[b].copy()
            blk = blocks[b]
            for s in blk["s"]:
                if s[0] == "=":
                    fr.line = s[3] if len(s) > 3 else fr.line
                    dl, dt = self.place(fr, st, s[1], fr.line)
                    v = self.rvalue(fr, st, s[2], fr.line, dt)
                    self.write(st, dl, v, dt)
            for nb in self.term(fr, st, blk["t"]):
                if nb == "ret":
                    v = st.m.get(("L", 0), CLEAN)
                    rv = v if rv is None else join(rv, v)
                    rets.merge(St({k: x for k, x in st.m.items() if k[0] == "A"}))
                    continue
                # one path through the callee: keep only live state
                if nb not in states:
                    states[nb] = st.copy()
                    work.append(nb)
                elif states[nb].merge(st) and nb not in work:
                    work.append(nb)
        return (rv if rv is not None else CLEAN, rets.m, fr.sinks)

    def term(self, fr, st, t):
        if isinstance(t, str):
            return []
        k = t["k"]
        fr.line = t.get("line") or fr.line
        if k == "goto":
            return [t["t"]]
        if k == "return":
            return ["ret"]
        if k == "switch":
            c = fr.constant(t["d"])
            if c is not None:
                return [next((b for x, b in t["vals"] if int(x) == c), t.get("else"))]
            v = self.operand(fr, st, t["d"], fr.line)
            self.seen(fr, "branches")
            if self.scalar(v, self.op_ty(fr, t["d"])):
                if fr.validates(self) and fr.rejects(t):
                    self.rejections.add((fr.key, fr.line))
                else:
                    self.sink(fr, fr.line, "branch on a secret-dependent value", fr.opname(t["d"]))
            return [b for _, b in t["vals"]] + ([t["else"]] if t.get("else") is not None else [])
        if k == "assert":
            v = self.operand(fr, st, t["cond"], fr.line)
            self.seen(fr, "bounds and arithmetic checks")
            if v.t or v.d:
                self.sink(fr, fr.line, "bounds or arithmetic check on a secret-dependent value", str(t["msg"][0]) if t.get("msg") else "")
            return [t["t"]]
        if k == "drop":
            return [t["t"]]
        if k == "asm":
            self.asm(fr, st, t)
            return [x for x in ([t["t"]] if "t" in t else t.get("ts") or [])]
        if k == "call":
            v = self.call(fr, st, t)
            if t["t"] is None or v is None:
                return []
            dl, dt = self.place(fr, st, t["dest"], fr.line)
            self.write(st, dl, v, dt)
            return [t["t"]]
        return []

    def asm(self, fr, st, t):
        a = self.blockinfo(fr.key, fr.f, t)
        ops = t["ops"]
        vals = []
        for o in ops:
            vals.append(self.operand(fr, st, o["v"], fr.line) if o.get("v") and o["k"] in ("in", "inout") else CLEAN)

        def secret(atoms):
            for k, i in atoms:
                v = vals[i]
                if k == "v" and (v.t or v.d and not self.ty(self.op_ty(fr, ops[i]["v"]))["s"] in ("usize", "isize")):
                    return i
                if k == "m" and v.p and self.content(st, self.read(st, v.p, None)):
                    return i
                if k == "m" and not v.p and v.d:
                    return i
            return None
        for (line, kind, text), atoms in a.sinks.items():
            self.seen(fr, "assembly branches and addresses", (line, text))
            i = secret(atoms)
            if i is not None:
                self.sink(fr, line, "secret-dependent %s in assembly" % kind, re.sub(r"\s+", " ", text))
        eff = []
        for reg, atoms in a.writes.items():
            if reg != "stack" and reg[0] == "op":
                eff.append((reg[1], secret(atoms) is not None))
        outs = []
        for i, o in enumerate(ops):
            if o.get("p") and o["k"] in ("out", "inout"):
                r = str(o["reg"])
                reg = a.phys(r.strip('"')) if r.startswith('"') else "op%d" % i
                v = a.exit.r.get(reg) if a.exit else None
                outs.append((o["p"], V.make(t=v is not None and secret(v.a) is not None)))
        for i, sec in eff:
            if vals[i].p:
                # a block that overwrites its output buffer with public data does not make it secret
                self.write(st, [(o, p, True) for o, p, w in vals[i].p], TAINT if sec else CLEAN)
        for p, v in outs:
            dl, dt = self.place(fr, st, p)
            self.write(st, dl, v, dt)

    # ------------------------------------------------------------ calls
    def call(self, fr, st, t):
        line = fr.line
        args = [self.operand(fr, st, a, line) for a in t["args"]]
        tys = [self.op_ty(fr, a) for a in t["args"]]
        dty = fr.f["body"]["locals"][t["dest"][0]][0] if not t["dest"][1] else None
        if t["f"][0] != "k" or "fn" not in t["f"][1]:
            return self.unknown(fr, st, "<indirect>", args, tys, dty)
        c = t["f"][1]["fn"]
        return self.invoke(fr, st, c.get("key"), c.get("rpath") or c["path"], args, tys, dty, c)

    def invoke(self, fr, st, key, path, args, tys, dty, c):
        for pat, h in self.overrides:
            if pat.search(path):
                return h(self, fr, st, key, path, args, tys)
        if "{shim:fnptr" in (key or "") or c.get("ctor"):
            n = args[1] if len(args) == 2 and path.endswith(("call_once", "call_mut", "call")) else None
            if n is not None:
                return V.make(f={(0, 0): child(n, (0, 0))})
        r = self.model(fr, st, key, path, args, tys, dty, c)
        if r is not NotImplemented:
            return r
        f = self.fns.get(key)
        if f and f.get("body"):
            return self.enter(fr, st, key, f, args)
        cands = [k for k in self.impls.get(path, []) + self.byname.get(path, []) if self.fns.get(k) and self.fns[k].get("body")]
        if not cands and c.get("path"):
            cands = [k for k in self.impls.get(c["path"], []) + self.byname.get(c["path"], []) if self.fns.get(k) and self.fns[k].get("body")]
        if cands:
            r = None
            base = st.copy()
            acc = None
            for k in sorted(set(cands)):
                s2 = base.copy()
                v = self.enter(fr, s2, k, self.fns[k], args)
                if v is not None:
                    r = v if r is None else join(r, v)
                if acc is None:
                    acc = s2
                else:
                    acc.merge(s2)
            st.m = acc.m
            return r
        return self.unknown(fr, st, path, args, tys, dty)

    def enter(self, fr, st, key, f, args):
        body = f["body"]
        if "{closure" in f["path"].rsplit("::", 1)[-1]:
            if len(args) == 2 and body["argc"] != 2 or len(args) == 2 and self.untuple(body):
                n = body["argc"] - 1
                args = [args[0]] + [child(args[1], (0, i)) for i in range(n)]
            if self.types[body["locals"][1][0]]["k"] == "ref" and not args[0].p:
                o = ("L", "clo%s" % id(body))
                st.m[o] = args[0]
                args = [V.make(p=frozenset([loc(o)]))] + args[1:]
        if self.makes_public(f):
            args = [self.public_copy(st, a, "%s.%d" % (fr.line, j)) for j, a in enumerate(args)]
        return self.call_fn(key, args, st, fr)

    def public_copy(self, st, v, tag, n=0):
        """the same value and what it points to, all public"""
        if not v.p or n > 4:
            return scrub(v)
        o = ("L", "pub%s.%d" % (tag, n))
        st.m[o] = self.public_copy(st, self.read(st, v.p, None), tag, n + 1)
        return V.make(p=frozenset([loc(o)]))

    def untuple(self, body):
        return body["argc"] == 2

    def unknown(self, fr, st, path, args, tys, dty):
        """a callee without a body or model: everything it returns or can write depends on everything it can read"""
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        x = any(self.content(st, a) for a in args)
        r = V.make(t=x, d=x, p=frozenset().union(*[allptr(a) for a in args]) if args else frozenset())
        for a, t in zip(args, tys):
            if self.ty(t)["k"] in ("ref", "ptr") and self.ty(t).get("mut") and x:
                self.write(st, [(o, p, True) for o, p, w in a.p], TAINT)
        return r

    def weak(self, v):
        """the same pointer, to some part of what it pointed to"""
        return V.make(v.t, v.d, frozenset((o, p, True) for o, p, w in v.p), v.f)

    def idx_secret(self, st, v, t):
        ty = self.ty(t)
        if ty["k"] == "adt":
            return any(x.t for x in v.f.values()) or v.t
        return v.t

    def item(self, fr, st, v, t, depth=0):
        """(item value, secret-dependent length?) of iterating over v"""
        ty = self.ty(t)
        if "it" in v.f:
            return v.f["it"], v.t
        if ty["k"] == "ref":
            e = self.ty(ty["e"])
            if e["k"] in ("array", "slice") or e["k"] == "adt" and e.get("path", "").startswith(("alloc::vec", "core::option")):
                return self.weak(v), v.t
            if depth < 4:
                return self.item(fr, st, self.pointee(st, v), ty["e"], depth + 1)
        if ty["k"] in ("array", "slice"):
            return v, False
        if ty["k"] == "adt":
            p = ty.get("path", "")
            if p.startswith("core::ops::range::"):
                x = any(self.content_t(c) for c in v.f.values()) or v.t
                return V.make(t=x), x
            if p.startswith("core::iter::adapters::zip"):
                pass
            # an iterator of this crate
            for k in self.impls.get("core::iter::traits::iterator::Iterator::next", []):
                g = self.fns.get(k)
                if g and g.get("body"):
                    a = self.ty(g["body"]["locals"][1][0])
                    if a["k"] == "ref" and self.ty(a["e"]).get("path") == p:
                        o = ("L", "it%s" % k)
                        st.m[o] = v
                        r = self.call_fn(k, [V.make(p=frozenset([loc(o)]))], st, fr)
                        return child(r, (1, 0)), r.t
        if ty["k"] == "param" or ty["k"] == "?":
            return v, v.t
        return (DEEP if v.d else v), v.t

    def content_t(self, v):
        return v.t or any(self.content_t(x) for x in v.f.values())

    def model(self, fr, st, key, path, args, tys, dty, c):
        line = fr.line
        if path.startswith("graviola"):
            return NotImplemented
        if PANIC.search(path):
            return CLEAN if not re.search(r"panic|fail", path) else None
        m = NUM.match(path)
        if m:
            x = any(self.scalar(a, t) if self.ty(t)["k"] != "ref" else self.content(st, a) for a, t in zip(args, tys))
            op = m.group(2)
            if x and (re.search(r"(^|_)(div|rem)|is_multiple_of|next_multiple_of|ilog|isqrt", op)):
                if not op.startswith("ilog"):
                    self.sink(fr, line, "division with a secret-dependent operand", op)
            if op.startswith("checked_"):
                return V.make(t=x, f={(1, 0): V.make(t=x)})
            if op.startswith("overflowing_") or op in ("carrying_add", "borrowing_sub", "widening_mul"):
                return V.make(f={(0, 0): V.make(t=x), (0, 1): V.make(t=x)})
            if op.startswith("strict_") and x:
                self.sink(fr, line, "bounds or arithmetic check on a secret-dependent value", op)
            return V.make(t=x)
        if "core_arch" in path:
            x = any(self.content(st, a) for a in args)
            if re.search(r"gather|scatter", path) and any(a.t or a.d for a in args):
                self.sink(fr, line, "memory access through a secret-dependent address", path.split("::")[-1])
            for a, t in zip(args, tys):
                if self.ty(t)["k"] in ("ref", "ptr") and (self.ty(t).get("mut") or "store" in path):
                    if a.p and (x or "store" in path):
                        self.write(st, [(o, p, True) for o, p, w in a.p], TAINT if x else CLEAN)
            return V.make(t=x, d=x)
        if CMPS.search(path):
            x = any(self.content(st, a) for a in args)
            if x:
                self.sink(fr, line, "variable-time comparison of secret data", path.split("::")[-1])
            return V.make(t=x)
        if path.startswith("core::slice::<impl [T]>::"):
            op = path.rsplit("::", 1)[1]
            for a, t in list(zip(args, tys))[1:]:
                if self.ty(t)["s"] == "usize" and a.t or self.ty(t)["k"] == "adt" and self.idx_secret(st, a, t) and op in ("get", "get_mut", "copy_within"):
                    self.sink(fr, line, "slice operation at a secret-dependent position", op)
            if op in ("len", "is_empty"):
                return CLEAN
            if op in ("copy_from_slice", "clone_from_slice", "swap_with_slice"):
                self.write(st, args[0].p or [], self.pointee(st, args[1]) if args[1].p else args[1])
                return CLEAN
            if op in ("fill",):
                self.write(st, args[0].p or [], args[1])
                return CLEAN
            if op in ("swap", "reverse", "rotate_left", "rotate_right", "copy_within"):
                return CLEAN
            if op == "to_vec":
                return self.pointee(st, args[0])
            if SLICE_REF.search(path):
                return args[0]
            if ITER_NEW.match(path):
                w = self.weak(args[0])
                return V.make(d=args[0].d, p=args[0].p, f={"it": w})
            w = self.weak(args[0])
            if PARTS.match(path):
                return V.make(f={(0, 0): w, (0, 1): w}) if "chunk" not in op or op.startswith(("as_chunks", "as_rchunks")) else V.make(f={(1, 0): V.make(f={(0, 0): w, (0, 1): w})})
            if OPTREF.match(path):
                return w if "unchecked" in op else V.make(f={(1, 0): w})
            if OPTPARTS.match(path):
                return V.make(f={(1, 0): V.make(f={(0, 0): w, (0, 1): w})})
        if re.search(r"::(as_flattened|as_flattened_mut)$", path):
            return args[0]
        if path.startswith("core::slice::iter::") and re.search(r"remainder$", path):
            return args[0].f.get("it", args[0]) if "it" in args[0].f else child(self.pointee(st, args[0]), "it") if args[0].p and "it" in self.pointee(st, args[0]).f else self.weak(args[0])
        if re.search(r"Index(Mut)?(<.*>)?( for .*)?>?::index(_mut)?$", path):
            if len(args) > 1 and (self.idx_secret(st, args[1], tys[1])):
                self.sink(fr, line, "slice operation at a secret-dependent position", "index")
            if not self.local_impl(path, key):
                return self.weak(args[0])
        if re.search(r"^core::iter::traits::iterator::Iterator>?::zip$", path):
            a, at_ = self.item(fr, st, args[0], tys[0])
            b, bt = self.item(fr, st, args[1], tys[1])
            return V.make(t=at_ or bt, f={"it": V.make(f={(0, 0): a, (0, 1): b})})
        if re.search(r"Iterator>?::enumerate$", path):
            a, x = self.item(fr, st, args[0], tys[0])
            return V.make(t=x, f={"it": V.make(f={(0, 0): V.make(t=x), (0, 1): a})})
        if re.search(r"Iterator>?::(by_ref|peekable|fuse)$", path) and self.ty(tys[0])["k"] == "ref":
            return args[0]
        if path.endswith("::into_iter") and self.ty(tys[0])["k"] == "adt" and not self.ty(tys[0]).get("path", "").startswith(("alloc::", "core::option", "core::array")):
            return args[0]
        if ITER_SAME.search(path) and not self.local_impl(path, key):
            a, x = self.item(fr, st, args[0], tys[0])
            if path.endswith("::chain"):
                b, y = self.item(fr, st, args[1], tys[1])
                a, x = join(a, b), x or y
            elif re.search(r"::(skip|take|step_by)$", path) and args[1].t:
                x = True
            if re.search(r"::(copied|cloned)$", path):
                a = self.pointee(st, a)
            return V.make(t=x, p=args[0].p, f={"it": a})
        if re.search(r"Iterator(>| for .*>)?::(next|next_back|last|nth)$|::PolymorphicIter.*::next$", path) and not self.local_impl(path, key):
            a, x = self.item(fr, st, args[0], tys[0])
            return V.make(t=x, f={(1, 0): a})
        if re.search(r"Iterator>?::(all|any|position|rposition|find|filter|map|for_each|take_while|skip_while|fold|find_map|filter_map|min_by|max_by|map_while|inspect)$", path):
            return self.hof(fr, st, path, args, tys)
        if re.search(r"Iterator>?::(sum|product|min|max|count|collect|eq|ne|cmp|lt)$", path):
            a, x = self.item(fr, st, args[0], tys[0])
            y = self.content(st, a)
            op = path.rsplit("::", 1)[1]
            if op in ("eq", "ne", "cmp", "lt") and (y or len(args) > 1 and self.content(st, args[1])):
                self.sink(fr, line, "variable-time comparison of secret data", op)
            return V.make(t=x or y and op not in ("collect", "count"), d=y)
        if re.search(r"Iterator(>)?::size_hint$|::len$|::is_empty$|size_of|align_of|needs_drop|type_name|intrinsics::(size_of|min_align)", path):
            return CLEAN
        if re.search(r"^core::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) (T|\[T\])>::(add|sub|offset|wrapping_add|wrapping_sub|byte_add)$", path):
            return V.make(args[0].t or args[1].t, args[0].d, self.weak(args[0]).p)
        if re.search(r"^core::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) (T|\[T\])>::(cast\w*|as_ptr|as_mut_ptr)$|^core::ptr::(from_ref|from_mut|slice_from_raw_parts\w*)|^core::slice::raw::from_raw_parts", path):
            return args[0]
        if re.search(r"core::ptr::(read\w*|.*>::read\w*)$", path):
            return self.pointee(st, args[0])
        if re.search(r"core::ptr::(write\w*|.*>::write\w*)$", path) and len(args) > 1:
            self.write(st, args[0].p, args[1])
            return CLEAN
        if re.search(r"ptr::(copy\w*|.*>::copy_\w+)$|intrinsics::copy", path):
            d, s = (args[0], args[1]) if re.search(r"copy_from", path) else (args[1], args[0])
            self.write(st, self.weak(d).p, self.pointee(st, s))
            return CLEAN
        if re.search(r"core::hint::black_box$|core::mem::ManuallyDrop|MaybeUninit|core::intrinsics::(black_box|assume|likely|unlikely)|core::hint::", path):
            return args[0] if args else CLEAN
        if re.search(r"sync::atomic::", path):
            return CLEAN
        if path.endswith("clone::Clone::clone") or re.search(r"clone::Clone for .*>::clone$|SpecArrayClone>::clone$", path):
            if not self.local_impl(path, key):
                return self.pointee(st, args[0])
        if re.search(r"TryFrom<&?('a )?(mut )?\[T\]> for ", path) or re.search(r"TryFrom<.*\[.*\]> for ", path):
            v = args[0]
            if not re.search(r"for &", path):
                v = self.pointee(st, v)
            return V.make(f={(0, 0): v, (1, 0): CLEAN})
        if re.search(r"TryFrom<[iu]\w+> for [iu]", path):
            x = self.scalar(args[0], tys[0])
            return V.make(t=x, f={(0, 0): V.make(t=x)})
        if re.search(r"core::(array::equality|slice::cmp|str::)", path) and re.search(r"::(eq|ne|cmp|lt|spec_eq|spec_ne|equal_same_length)$", path) or "SpecArrayEq" in path:
            x = any(self.content(st, a) for a in args)
            if x:
                self.sink(fr, line, "variable-time comparison of secret data", path.split("::")[-1])
            return V.make(t=x)
        if re.search(r"core::mem::(swap|replace|take)$", path) and path.endswith("swap"):
            a, b = self.pointee(st, args[0]), self.pointee(st, args[1])
            self.write(st, args[0].p, b)
            self.write(st, args[1].p, a)
            return CLEAN
        if path.endswith("core::mem::replace"):
            a = self.pointee(st, args[0])
            self.write(st, args[0].p, args[1])
            return a
        if path.startswith("alloc::vec::"):
            op = path.rsplit("::", 1)[1]
            if op in ("from_elem",):
                if args[1].t:
                    self.sink(fr, line, "allocation of secret-dependent size", op)
                return args[0]
            if op in ("with_capacity", "new"):
                return CLEAN
            if op in ("extend_from_slice", "push", "append"):
                v = self.pointee(st, args[1]) if op != "push" else args[1]
                self.write(st, self.weak(args[0]).p, v)
                return CLEAN
            if op in ("as_slice", "as_mut_slice", "deref", "deref_mut", "as_ptr", "as_mut_ptr"):
                return args[0]
        if re.search(r"::(deref|deref_mut|as_ref|as_mut|borrow|borrow_mut)$", path) and not self.local_impl(path, key):
            f = self.fns.get(key)
            if not (f and f.get("body")):
                return args[0]
        if path.startswith("core::iter::traits::collect::") and path.endswith("into_iter") or re.search(r"IntoIterator for .*>::into_iter$", path):
            a, x = self.item(fr, st, args[0], tys[0])
            return V.make(t=x, p=args[0].p, f={"it": a})
        if re.search(r"ops::(bit|arith)::\w+::\w+$|core::cmp::(PartialEq|PartialOrd|Ord|min|max)|core::num::", path) and not (self.fns.get(key) or {}).get("body"):
            x = any(self.content(st, a) for a in args)
            return V.make(t=x, d=x)
        if "is_feature_detected" in path or path.startswith("std_detect") or path.startswith("core::default::Default"):
            return CLEAN if not (self.fns.get(key) or {}).get("body") else NotImplemented
        return NotImplemented

    def local_impl(self, path, key):
        f = self.fns.get(key)
        return bool(f and f.get("local") and f.get("body"))

    def hof(self, fr, st, path, args, tys):
        op = path.rsplit("::", 1)[1]
        it, x = self.item(fr, st, args[0], tys[0])
        fi = len(args) - 1
        ty = self.ty(tys[fi])
        g = None
        if ty["k"] in ("closure", "fndef"):
            for k in [ty.get("path")] + self.byname.get(ty.get("path"), []):
                if self.fns.get(k, {}).get("body"):
                    g = k
                    break
        a = it
        if op in ("find", "filter", "take_while", "skip_while"):
            o = ("L", "hof%s" % fr.line)
            st.m[o] = it
            a = V.make(p=frozenset([loc(o)]))
        if g is None:
            r = V.make(t=self.content(st, it), d=self.content(st, it))
        else:
            cl = args[fi]
            o = ("L", "clo%s" % fr.line)
            st.m[o] = cl
            body = self.fns[g]["body"]
            ca = [V.make(p=frozenset([loc(o)]))] if self.types[body["locals"][1][0]]["k"] == "ref" else [cl]
            if ty["k"] == "fndef":
                ca = []
            if op == "fold":
                acc = args[1]
                for _ in range(2):
                    acc = join(acc, self.call_fn(g, ca + [acc, it], st, fr))
                return acc
            r = self.call_fn(g, ca + [a], st, fr)
        if op in ("all", "any", "position", "rposition", "find", "take_while", "skip_while", "find_map", "map_while"):
            if r.t or r.d and op != "find_map":
                self.sink(fr, fr.line, "early exit on a secret-dependent value", "Iterator::" + op)
        if op in ("all", "any"):
            return V.make(t=r.t or r.d or x)
        if op in ("position", "rposition"):
            return V.make(t=r.t or x, f={(1, 0): V.make(t=r.t)})
        if op == "find":
            return V.make(t=r.t or x, f={(1, 0): it})
        if op == "filter":
            return V.make(t=x or r.t or r.d, f={"it": it})
        if op in ("take_while", "skip_while", "inspect"):
            return V.make(t=x or r.t, f={"it": it})
        if op == "map":
            return V.make(t=x, f={"it": r})
        if op == "for_each":
            return CLEAN
        return V.make(t=x or r.t, d=r.any, f={"it": r})


class Frame:
    def __init__(self, key, f):
        self.key, self.f = key, f
        self.line = f["line"]
        self.sinks = {}

    def constant(self, o, n=0):
        """the value of an operand that is a constant (or a local only ever assigned one)"""
        if o[0] == "k":
            v = o[1].get("v")
            return int(v) if isinstance(v, (int, bool)) or isinstance(v, str) and v.lstrip("-").isdigit() else None
        l, pr = o[1]
        d = self.defs().get(l)
        if pr or d is None or n > 4:
            return None
        if d[0] == "use":
            return self.constant(d[1], n + 1)
        if d[0] == "un" and d[1] == "Not":
            v = self.constant(d[2], n + 1)
            return None if v not in (0, 1) else 1 - v
        return None

    def defs(self):
        r = self.f.get("_defs")
        if r is None:
            r, multi = {}, set(range(1, self.f["body"]["argc"] + 1))
            for b in self.f["body"]["blocks"]:
                for s in b["s"]:
                    if s[0] == "=":
                        multi |= {s[1][0]} if s[1][0] in r or s[1][1] else set()
                        r[s[1][0]] = s[2]
                        if s[2][0] in ("ref", "raw") and not s[2][2][1]:
                            multi.add(s[2][2][0])
                t = b["t"]
                if isinstance(t, dict):
                    if t.get("dest"):
                        multi.add(t["dest"][0])
                    for o in t.get("ops") or ():
                        if o.get("p"):
                            multi.add(o["p"][0])
            r = self.f["_defs"] = {k: v for k, v in r.items() if k not in multi}
        return r

    def validates(self, T):
        """does this function make a value (not a verdict) or reject its input?"""
        r = T.ty(self.f["body"]["locals"][0][0])
        if r["k"] != "adt" or r.get("path") not in ("core::result::Result", "core::option::Option") or not r.get("args"):
            return False
        a = T.ty(r["args"][0])
        return a["s"] not in ("()", "bool") and a["k"] not in ("ref", "uint", "int")

    def rejects(self, t):
        """one side of this branch does nothing but return an error (Err, None or false)"""
        return any(self.only_error(b) for b in [b for _, b in t["vals"]] + [t.get("else")] if b is not None)

    def only_error(self, b, err=False, n=0):
        blocks = self.f["body"]["blocks"]
        while n < 30:
            n += 1
            for s in blocks[b]["s"]:
                if s[0] != "=":
                    continue
                if s[1] == [0, []]:
                    rv = s[2]
                    c = rv[0] == "agg" and rv[1] == "adt" and rv[2].get("path", "").startswith("core::") and rv[2]["variant"] in ("Err", "None")
                    c = c or rv[0] == "use" and rv[1][0] == "k" and self.errconst(rv[1][1])
                    if not c:
                        return False
                    err = True
            t = blocks[b]["t"]
            if isinstance(t, str):
                return False
            if t["k"] == "return":
                return err
            if t["k"] == "call":
                p = t["f"][1].get("fn", {}).get("path", "") if t["f"][0] == "k" else ""
                if t["t"] is None and re.search("panic|unwrap_failed|expect_failed|_fail$", p):
                    return True
                if t["dest"] == [0, []] and p.endswith("from_residual"):
                    err = True
                    b = t["t"]
                    continue
            if t["k"] == "switch" and n < 20:
                return all(self.only_error(x, err, n + 4) for x in [y for _, y in t["vals"]] + [t["else"]])
            if t["k"] not in ("goto", "drop"):
                return False
            b = t["t"]
        return False

    def errconst(self, c):
        return c.get("v") in (0, "0", False) and c.get("s", "") != "()" or "Err" in str(c.get("s", "")) or "None" in str(c.get("s", ""))

    def name(self, l):
        n = self.f["body"]["locals"][l][1]
        return n or ""

    def opname(self, o):
        return self.name(o[1][0]) if o[0] != "k" else ""


def allptr(v):
    p = set(v.p)
    for x in v.f.values():
        p |= allptr(x)
    return frozenset(p)
