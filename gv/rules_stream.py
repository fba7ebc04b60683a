"""C30: incremental hashing absorbs every byte exactly once, in order, and pads with the full length.

The engine's outcomes of update/finish/read are terms over the context's old fields and the input slice. A data refinement
relation (which leaf field is the chaining state, the buffer, the fill level, the block count) is looked for under which every
outcome keeps the invariant `compressed blocks ++ buffer[..used] = everything absorbed so far`; index terms are decided for every
fill level and every input length class (residues and all thresholds that occur in the terms)."""
import re
from .core import guarded
from .engine import *
from .q import *
from .rules_ec import archs

BLOCKWISE = re.compile(r"^<?graviola::low::(generic::)?(blockwise|poly1305)::")
KERNEL = re.compile(r"^<?graviola::low::")
M64 = (1 << 64) - 1


class Unres(Exception):
    """an abstract value this rule cannot interpret: the path is left undecided, never reported"""


def stream_engine(ctx, crate):
    E = ctx.engine(crate, opaque=lambda k, p: bool(KERNEL.match(p)) and not BLOCKWISE.match(p), K=64)
    E.eager = False
    E.unroll = 32
    return E


CASTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}


class Ev:
    """evaluates index terms and contents for one assignment of the leaf terms"""

    def __init__(self, E, env, sizes, N=None):
        self.E = E
        self.env = env
        self.sizes = sizes      # content term -> length (int)
        self.memo = {}
        self.busy = set()
        self.N = N

    # ------------------------------------------------ integers
    def num(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.num_(t)
        return r

    def num_(self, t):
        if t in self.env:
            return self.env[t]
        op, a = t.op, t.a
        if op == "int":
            return a[0]
        if op == "lin":
            return a[0] + sum(self.num(x) * k for x, k in a[1])
        if op == "ite":
            return self.num(a[1] if self.num(a[0]) else a[2])
        if op == "lt":
            return int(self.num(a[0]) < self.num(a[1]))
        if op == "eq":
            return int(self.num(a[0]) == self.num(a[1]))
        if op == "not":
            return int(not self.num(a[0]))
        if op == "and":
            return int(bool(self.num(a[0]) and self.num(a[1])))
        if op == "remlen":
            return self.num(a[0]) % self.num(a[1])
        if op in ("sat", "ovf", "bin"):
            x, y = self.num(a[1]), self.num(a[2])
            o = a[0].replace("Unchecked", "")
            try:
                v = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": lambda: x // y, "Rem": lambda: x % y,
                     "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << (y & 127), "Shr": lambda: x >> (y & 127)}[o]()
            except (KeyError, ZeroDivisionError):
                raise Unres(show(t, 3))
            if op == "sat":
                return max(0, min(v, M64))
            if op == "ovf":
                return int(not 0 <= v <= M64)
            return v
        if op == "cast":
            w = CASTW.get(a[0])
            if w is None:
                raise Unres(show(t, 3))
            return self.num(a[1]) & ((1 << w) - 1)
        if op == "len":
            return self.length(mk("deref", a[0])) if a[0].op != "ref" else self.length(self.content_of(a[0]))
        if op == "prj":
            v = self.through(t)
            if v is not t:
                return self.num(v)
        raise Unres(show(t, 3))

    def content_of(self, r):
        raise Unres("ref")

    # ------------------------------------------------ values carried round loops
    def through(self, t):
        """a projection of a loop-carried value that the loop leaves alone is the value it entered with"""
        b, pr = t, []
        while b.op == "prj":
            pr.append(b.a[1])
            b = b.a[0]
        if b.op != "phi" or not self.E.phis.get(b):
            return t
        vals = []
        for y in self.E.phis[b]:
            for e in reversed(pr):
                y = project(y, e)
            if y is not t and y not in vals:
                vals.append(y)
        return vals[0] if len(vals) == 1 else t

    # ------------------------------------------------ contents
    def length(self, t):
        t = strip_at(t)
        if t in self.sizes:
            return self.sizes[t]
        op, a = t.op, t.a
        if op == "prj" and a[1][0] == "r":
            return self.num(a[1][2]) - self.num(a[1][1])
        if op == "upd" and a[1][0] in ("i", "r"):
            return self.length(a[0])
        if op == "rep":
            return self.num(a[1])
        if op == "bytes":
            return len(a[0])
        if op == "agg" and a[0] == "array":
            return len(a) - 2
        if op in ("to_be", "to_le"):
            return a[0] if isinstance(a[0], int) else self.num(a[0])
        if op == "ite":
            return self.length(a[1] if self.num(a[0]) else a[2])
        if op == "deref":
            f = self.flat(t)
            if f is not None:
                return sum(self.length(x) for x in f)
        if op == "prj":
            v = self.through(t)
            if v is not t:
                return self.length(v)
        raise Unres("length " + show(t, 3))

    def flat(self, t):
        c = t.a[0]
        if c.op == "call" and c.a[0].endswith("::as_flattened"):
            x = strip_at(c.a[2][0])
            if x.op == "agg" and x.a[0] == "array":
                return x.a[2:]
        return None

    def get(self, t, lo, hi):
        """contents [lo, hi) of t as pieces ("s", source, lo, hi) / ("k", byte, count)"""
        t = strip_at(t)
        if hi <= lo:
            return []
        op, a = t.op, t.a
        if op == "prj" and a[1][0] == "r":
            b = self.num(a[1][1])
            if hi > self.num(a[1][2]) - b:
                raise Unres("out of range")
            return self.get(a[0], lo + b, hi + b)
        if op == "upd" and a[1][0] == "r":
            A, B = self.num(a[1][1]), self.num(a[1][2])
            r = self.get(a[0], lo, min(hi, A))
            if max(lo, A) < min(hi, B):
                r = r + self.get(a[2], max(lo, A) - A, min(hi, B) - A)
            return r + self.get(a[0], max(lo, B), hi)
        if op == "upd" and a[1][0] == "i":
            j = self.num(a[1][1])
            if not lo <= j < hi:
                return self.get(a[0], lo, hi)
            return self.get(a[0], lo, j) + [self.byte(a[2])] + self.get(a[0], j + 1, hi)
        if op == "rep":
            v = self.byte(a[0])
            return [v[:2] + (hi - lo,)] if v[0] == "k" else [v] * (hi - lo)
        if op == "bytes":
            return [("k", x, 1) for x in a[0][lo:hi]]
        if op == "agg" and a[0] == "array":
            return [self.byte(x) for x in a[2 + lo:2 + hi]]
        if op in ("to_be", "to_le"):
            w = a[0] if isinstance(a[0], int) else self.num(a[0])
            try:
                v = self.num(a[1])
            except Unres:
                return [("s", t, lo, hi)]
            bs = (v & ((1 << 8 * w) - 1)).to_bytes(w, "big" if op == "to_be" else "little")
            return [("k", x, 1) for x in bs[lo:hi]]
        if op == "ite":
            return self.get(a[1] if self.num(a[0]) else a[2], lo, hi)
        if op == "deref":
            f = self.flat(t)
            if f is not None:
                r, p = [], 0
                for x in f:
                    n = self.length(x)
                    if lo < p + n and hi > p:
                        r += self.get(x, max(lo - p, 0), min(hi - p, n))
                    p += n
                return r
        if op == "phi" or op == "prj":
            v = self.through(t)
            if v is not t:
                return self.get(v, lo, hi)
        if op == "phi":
            raise Unres("loop-carried content")
        return [("s", t, lo, hi)]

    def byte(self, v):
        try:
            return ("k", self.num(v) & 255, 1)
        except Unres:
            pass
        if v.op == "prj" and v.a[1][0] == "i":
            i = self.num(v.a[1][1])
            g = self.get(v.a[0], i, i + 1)
            return g[0]
        if v.op == "bin" and v.a[0] in ("BitOr", "BitXor", "BitAnd"):
            x, y = self.byte(v.a[1]), self.byte(v.a[2])
            if x[0] == "k":
                x, y = y, x
            if x[0] == y[0] == "k":
                return ("k", {"BitOr": x[1] | y[1], "BitXor": x[1] ^ y[1], "BitAnd": x[1] & y[1]}[v.a[0]], 1)
            if y[0] == "k":
                if y[1] == (255 if v.a[0] == "BitAnd" else 0):
                    return x
                if v.a[0] == "BitAnd" and y[1] == 0:
                    return y
        elif v.op in ("bin", "un", "cast", "call", "ite", "phi"):
            if v.op == "ite":
                return self.byte(v.a[1] if self.num(v.a[0]) else v.a[2])
            raise Unres("byte " + show(v, 3))
        return ("s", v, 0, 1)


def merge(ps):
    r = []
    for p in ps:
        if p[0] == "k":
            if p[2] <= 0:
                continue
            if r and r[-1][0] == "k" and r[-1][1] == p[1]:
                r[-1] = ("k", p[1], r[-1][2] + p[2])
                continue
        else:
            if p[3] <= p[2]:
                continue
            if r and r[-1][0] == "s" and r[-1][1] is p[1] and r[-1][3] == p[2]:
                r[-1] = ("s", p[1], r[-1][2], p[3])
                continue
        r.append(p)
    return r


def size(ps):
    return sum(p[2] if p[0] == "k" else p[3] - p[2] for p in ps)


def pshow(ps):
    return " ++ ".join("%d x %02x" % (p[2], p[1]) if p[0] == "k" else "%s[%d..%d]" % (show(p[1], 3), p[2], p[3]) for p in ps[:8]) or "nothing"


# ------------------------------------------------------------------------------------------------ what the state has absorbed
def kernel_state(t):
    """(call, state content before, data content) when t is the state left by one call of a compression function"""
    if t.op == "out" and t.a[0].op == "call" and KERNEL.match(t.a[0].a[0]):
        v = t.a[0].a[2]
        k = t.a[1]
        rest = [x for i, x in enumerate(v) if i != k and x.op == "at"]
        if v[k].op == "at":
            return t.a[0], v[k].a[0], rest
    return None


def lanes_in(E, x):
    """decompose a state about to be permuted: (state before, [block content term, lanes]) if lanes 0.. were xored with the little-endian words of one block"""
    up = {}
    b = x
    while b.op == "upd" and b.a[1][0] == "i" and isint(b.a[1][1]):
        up.setdefault(b.a[1][1].a[0], b.a[2])
        b = b.a[0]
    return b, up


class Feeds:
    """the blocks a state value has absorbed since the base state, under one assignment"""

    def __init__(self, ev, base, N, sponge):
        self.ev, self.base, self.N, self.sponge = ev, base, N, sponge
        self.kernels = set()

    def of(self, t, base=None, d=0):
        """list of pieces absorbed, in order"""
        E, ev = self.ev.E, self.ev
        if t is self.base or t is base:
            return []
        if self.base is None and t.op == "rep" and isint(t.a[0]) and t.a[0].a[0] == 0:
            return []
        if d > 600:
            raise Unres("deep")
        if t.op == "at":
            return self.of(t.a[0], base, d)
        ks = kernel_state(t)
        if ks:
            call, before, data = ks
            self.kernels.add(call.a[0])
            if not self.sponge:
                if len(data) != 1:
                    raise Unres("kernel arguments")
                n = ev.length(data[0])
                return self.of(before, base, d + 1) + [("blocks", n)] + ev.get(data[0], 0, n)
            prev, up = lanes_in(E, before)
            return self.of(prev, base, d + 1) + [("blocks", self.N)] + self.words(prev, up)
        b, pr = t, []
        while b.op == "prj":
            pr.append(b.a[1])
            b = b.a[0]
        if b.op == "phi" and E.phis.get(b):
            entry, step = [], []
            for y in E.phis[b]:
                for e in reversed(pr):
                    y = project(y, e)
                if y is t:
                    continue
                (step if any(z is b for z in subterms(y, set(), E.phis)) else entry).append(y)
            return self.fold(t, b, entry, step, base, d)
        if t.op == "ite":
            return self.of(t.a[1] if ev.num(t.a[0]) else t.a[2], base, d + 1)
        raise Unres("state " + show(t, 3))

    def words(self, prev, up):
        ev = self.ev
        if not up or not set(up) <= set(range(self.N // 8)):
            raise Unres("lanes %s" % sorted(up))
        r = []
        for j in range(self.N // 8):
            pj = project(prev, ("i", I(j)))
            v = up.get(j, pj)
            if v is pj:
                r.append(("k", 0, 8))
                continue
            if isint(pj) and pj.a[0] == 0:
                w = v
            elif v.op == "bin" and v.a[0] == "BitXor" and pj in v.a[1:]:
                w = v.a[2] if v.a[1] is pj else v.a[1]
            else:
                raise Unres("lane " + show(v, 5))
            if w.op == "bin":
                raise Unres("lane")
            if isint(w):
                r += [("k", x, 1) for x in (w.a[0] & M64).to_bytes(8, "little")]
            elif w.op == "from_le":
                r += ev.get(w.a[1], 0, 8)
            else:
                raise Unres("lane " + show(w, 3))
        return r

    def fold(self, t, phi, entry, step, base, d):
        E, ev = self.ev.E, self.ev
        if not step and len(entry) == 1:
            return self.of(entry[0], base, d + 1)
        if len(step) != 1 or not entry:
            raise Unres("loop")
        for within in (None, E.phis):
            ids = {z.a[0] for z in subterms(step[0], set(), within) if z.op == "itidx"}
            mine = [i for i in ids if i in E.iters and E.iters[i][0] in ("chunks_exact", "chunks")]
            if len(mine) == 1:
                break
        if len(mine) != 1:
            raise Unres("loop iterator")
        kind, p, n = E.iters[mine[0]][:3]
        n = ev.num(n)
        total = ev.num(E.len_of(p))
        cnt = total // n if kind == "chunks_exact" else -(-total // n)
        it = mk("itidx", mine[0])
        skip = 0
        if mine[0] in E.bounds:
            how, k = E.bounds[mine[0]]
            k = ev.num(k)
            skip, cnt = (min(k, cnt), max(0, cnt - k)) if how == "skip" else (0, min(k, cnt))
        def one(j):
            j += skip
            e2 = Ev(E, dict(ev.env), ev.sizes, ev.N)
            e2.env[it] = j * n
            e2.env[mk("itend", mine[0])] = min(total, (j + 1) * n)
            f = Feeds(e2, self.base, self.N, self.sponge)
            f.ex = self.ex
            r = f.of(step[0], t, d + 1)
            self.kernels |= f.kernels
            return r
        def run(count):
            if count <= 12:
                return sum((one(j) for j in range(count)), [])
            # a long run: the first, the last and some in between show what each element contributes
            def shape_(r):
                return [p[:1] + ((p[1], p[2] - j * n, p[3] - j * n) if p[0] == "s" else p[1:]) for p in r]
            first = None
            for j in (0, 1, 2, 3, count // 2, count - 3, count - 2, count - 1):
                r = [p for p in one(j)]
                x = shape_(merge_f(r))
                bl = [p for p in r if p[0] == "blocks"]
                if first is None:
                    first, bl0 = x, bl
                if x != first or bl != bl0 or len(x) != 1 or x[0][0] != "s":
                    raise Unres("loop elements differ")
            q = first[0]
            if q[3] - q[2] != n:
                raise Unres("loop elements not contiguous")
            return [("s", q[1], q[2], q[2] + count * n)] + bl0
        ent = None
        outs = []
        for y in entry:
            # the loop may have been peeled once: entering state, and that state after the first element
            if any(z is it for z in subterms(y, set(), E.phis)):
                e2 = Ev(E, dict(ev.env), ev.sizes, ev.N)
                e2.env[it] = skip * n
                e2.env[mk("itend", mine[0])] = min(total, (skip + 1) * n)
                if cnt:
                    outs.append(Feeds(e2, self.base, self.N, self.sponge).of(y, base, d + 1))
            else:
                outs.append(self.of(y, base, d + 1))
        short = min(outs, key=lambda x: size([p for p in x if p[0] != "blocks"]))
        for o in outs:
            if o is not short and merge_f(o) != merge_f(short) and (cnt < 1 or merge_f(o) != merge_f(short + run(1))):
                raise Unres("loop entries")
        if not ("exhausted_ok" in ev.env or (self.ex is None or mk("exhausted", mine[0]) in self.ex or mk("ended", mine[0]) in self.ex)):
            raise Unres("loop may stop early")
        return short + run(cnt)

    ex = None


def merge_f(ps):
    return merge([p for p in ps if p[0] != "blocks"])


# ------------------------------------------------------------------------------------------------ contexts
SHA2 = {"Sha256Context": (4, 64, 8, 32, None), "Sha384Context": (8, 128, 16, 48, 384), "Sha512Context": (8, 128, 16, 64, None)}   # word, block, length field, output, iv
SHA3 = {"Sha3_256Context": (136, 6, 32), "Sha3_512Context": (72, 6, 64)}


def primes(n):
    r, c = [], 2
    while len(r) < n:
        if all(c % p for p in r):
            r.append(c)
        c += 1
    return r


def isqrt(n):
    import math
    return math.isqrt(n)


def iv(name):
    if name == "Sha384Context":
        return [isqrt(p << 128) & M64 for p in primes(16)[8:]]
    if name == "Sha512Context":
        return [isqrt(p << 128) & M64 for p in primes(8)]
    return [isqrt(p << 64) & 0xffffffff for p in primes(8)]


def leaves(crate, ti, path=()):
    t = crate.types[ti]
    if t["k"] == "adt" and t.get("local") and len(t.get("variants") or []) == 1:
        for i, (n, f) in enumerate(t["variants"][0][1]):
            if f is None:
                yield path + (("f", i),), None
            else:
                for x in leaves(crate, f, path + (("f", i),)):
                    yield x
    else:
        yield path, t


def at_path(t, path):
    for e in path:
        t = project(t, e)
    return t


RELS = {"used": lambda u, k, N: u, "blocks": lambda u, k, N: k, "total": lambda u, k, N: k * N + u, "bits": lambda u, k, N: 8 * (k * N + u), "space": lambda u, k, N: N - u}


def shape(crate, path):
    """leaf fields of a context type: (state path, state words), (buffer path, block size), int paths"""
    st = bf = None
    ints = []
    for p, t in leaves(crate, crate.adts[path]["ty"]):
        if t is None or t.get("size") == 0:
            continue
        if t["k"] == "array":
            e = crate.types[t["e"]]
            if e["k"] == "uint" and e.get("size") in (4, 8) and st is None:
                st = (p, t["n"])
            elif e["k"] == "uint" and e.get("size") == 1 and bf is None:
                bf = (p, t["n"])
            else:
                return None
        elif t["k"] == "uint":
            ints.append(p)
        else:
            return None
    if st is None or bf is None or not 1 <= len(ints) <= 2:
        return None
    return st, bf, ints


def relations(ints):
    import itertools
    if len(ints) == 1:
        return [(r,) for r in ("used", "total", "bits", "space")]
    return [r for r in itertools.permutations(("used", "blocks", "total", "bits", "space"), 2) if set(r) & {"used", "space", "total", "bits"}]


def constants(outs, extra=()):
    c = set()
    for o in outs:
        ts = list(o.st.facts)
        for t in ts + list(extra):
            for x in subterms(t):
                if x.op == "int" and 0 < x.a[0] < 1 << 62:
                    c.add(x.a[0])
                elif x.op == "lin" and 0 < abs(x.a[0]) < 1 << 62:
                    c.add(abs(x.a[0]))
    return c


def classes(N, consts, thorough):
    """(fill level, input length) classes: all fill levels, all residues, every threshold that occurs"""
    us = range(N)
    edge = sorted({0, 1, 2, 3, N // 2 - 1, N // 2, N - 17, N - 9, N - 8, N - 2, N - 1} & set(us))
    big = {max(0, c + d) for c in consts if c > 2 * N for d in (-N, -1, 0, 1, N, N + 1)}
    big |= {c * N + d for c in consts if 3 < c < 1 << 40 for d in (-1, 0, 1, N)} | {1 << 21, (1 << 21) + 1, (1 << 32) + 3 * N + 5}
    big = sorted(b for b in big if b < 1 << 56)
    for u in us:
        if thorough or u in edge:
            Ls = set(range(3 * N + 2))
        else:
            Ls = {0, 1, 2, 7, N - u - 2, N - u - 1, N - u, N - u + 1, N - 1, N, N + 1, 2 * N - u - 1, 2 * N - u, 2 * N - u + 1, 2 * N - 1, 2 * N, 2 * N + 1, 3 * N - u, 3 * N + 1, 5 * N - u - 1, 5 * N}
        for L in sorted(x for x in Ls if x >= 0):
            yield u, L
        if u in edge:
            for L in big:
                yield u, L
                for c in (u, N - u):
                    yield u, L + c


def consistent(ev, o):
    for t, v in o.st.facts.items():
        try:
            if ev.num(t) != ev.num(v):
                return False
        except Unres:
            pass
    for t, vs in o.st.ne.items():
        try:
            n = ev.num(t)
            if any(n == (v if isinstance(v, int) else ev.num(v)) for v in vs):
                return False
        except Unres:
            pass
    return True


def unsure(ev, o):
    """a path condition about lengths alone that cannot be evaluated: whether the path applies is not known"""
    for t in list(o.st.facts) + list(o.st.ne):
        try:
            ev.num(t)
        except Unres:
            sub = subterms(t)
            if any(x.op == "len" or x in ev.env for x in sub) and not any(x.op in ("call", "out", "deref") for x in sub):
                return True
    return False


class Context:
    """one hash context type on one architecture"""

    def __init__(self, ctx, arch, crate, path, sponge, N):
        self.ctx, self.arch, self.crate, self.path, self.N, self.sponge = ctx, arch, crate, path, N, sponge
        self.nm = path.rsplit("::", 1)[-1]
        self.E = stream_engine(ctx, crate)
        self.sh = shape(crate, path)

    def method(self, name):
        for k, f in self.crate.fns.items():
            if f["path"] == self.path + "::" + name and f.get("body") and f["vis"] == "Public":
                return k
        return None

    def run(self, key):
        outs, av = self.E.entry(key)
        return [o for o in outs if o.kind == "return"], av

    def setup(self, self_t, rel, u, k, data=None, L=None):
        st, bf, ints = self.sh
        env = {}
        for p, r in zip(ints, rel):
            env[at_path(self_t, p)] = RELS[r](u, k, self.N)
        sizes = {at_path(self_t, bf[0]): self.N}
        if data is not None:
            env[mk("len", data)] = L
            sizes[mk("deref", data)] = L
        return env, sizes

    def after(self, ev, o, t, feeds):
        """(fed pieces, fed bytes, buffer term, ints) of the context content t"""
        st, bf, ints = self.sh
        fs = feeds.of(at_path(t, st[0]))
        for p in fs:
            if p[0] == "blocks" and p[1] % self.N:
                return "a partial block of %d bytes reaches the compression function" % p[1], None, None, None
        fs = merge_f(fs)
        return fs, size(fs), at_path(t, bf[0]), [ev.num(at_path(t, p)) for p in ints]

    def check_update(self, rel, thorough, limit=None):
        """list of violation texts"""
        key = self.method("update")
        outs, av = self.run(key)
        self_t, data = mk("deref", av[0].a[0][1]), av[1].a[0][1]
        objs = (av[0].a[0], av[1].a[0])
        st, bf, ints = self.sh
        finals = [self.E.content(o.st, objs[0]) for o in outs]
        base = at_path(self_t, st[0])
        n = und = 0
        bad = {}
        src = mk("deref", data)
        buf0 = at_path(self_t, bf[0])
        cs = list(classes(self.N, constants(outs, finals), thorough))
        if limit:
            cs = cs[::max(1, len(cs) // limit)]
        for u, L in cs:
            k = (0, 1, 5, 1 << 40)[(u + L) % 4]
            env, sizes = self.setup(self_t, rel, u, k, data, L)
            hit = False
            for o, t in zip(outs, finals):
                ev = Ev(self.E, env, sizes, self.N)
                if not consistent(ev, o):
                    continue
                hit = True
                n += 1
                try:
                    if unsure(ev, o):
                        raise Unres("path condition")
                    fd = Feeds(ev, base, self.N, self.sponge)
                    fd.ex = o.st.ev
                    fed, nb, buf, iv_ = self.after(ev, o, t, fd)
                    if isinstance(fed, str):
                        bad.setdefault(fed, (u, L, k))
                        continue
                    if nb % self.N:
                        bad.setdefault("%d bytes absorbed: not whole blocks" % nb, (u, L, k))
                        continue
                    u2 = u + L - nb
                    k2 = k + nb // self.N
                    want = merge([("s", buf0, 0, u), ("s", src, 0, L)])
                    if not 0 <= u2 < self.N:
                        bad.setdefault("after it, %d bytes would have to be left in the %d byte buffer" % (u2, self.N), (u, L, k))
                        continue
                    exp = [RELS[r](u2, k2, self.N) for r in rel]
                    if iv_ != exp:
                        bad.setdefault("counters are %s, should be %s" % (iv_, exp), (u, L, k))
                        continue
                    got = merge(fed + ev.get(buf, 0, u2))
                    if got != want:
                        bad.setdefault("absorbed and buffered: %s; given: %s" % (pshow(got), pshow(want)), (u, L, k))
                except Unres as e:
                    und += 1
                    self.why = str(e)
            if not hit and L < 1 << 40:
                bad.setdefault("does not return", (u, L, k))
        return bad, n, und

    why = None

    def check_finish_md(self, rel, word, lenw, outlen, ivs):
        key = self.method("finish")
        outs, av = self.run(key)
        self_t = av[0]
        st, bf, ints = self.sh
        bad, n, und = {}, 0, 0
        base = at_path(self_t, st[0])
        buf0 = at_path(self_t, bf[0])
        N = self.N
        for u in range(N):
            for k in (0, 1, 2, (1 << 16) // N, (1 << 29) // N, (1 << 32) // N - 1, (1 << 32) // N, (1 << 40) // N, (1 << 60) // N - 1):
                env, sizes = self.setup(self_t, rel, u, k)
                hit = False
                for o in outs:
                    ev = Ev(self.E, env, sizes, N)
                    if not consistent(ev, o):
                        continue
                    hit = True
                    n += 1
                    try:
                        if unsure(ev, o):
                            raise Unres("path condition")
                        out = ev.get(o.ret, 0, outlen)
                        S = None
                        ok = len(out) == outlen // word
                        for j, p in enumerate(out):
                            if not (p[0] == "s" and p[1].op == "to_be" and p[2] == 0 and p[3] == word):
                                raise Unres("output " + pshow([p]))
                            x = p[1].a[1]
                            if not (x.op == "prj" and x.a[1][0] == "i" and isint(x.a[1][1])):
                                raise Unres("output word")
                            if x.a[1][1].a[0] != j or (S is not None and x.a[0] is not S):
                                ok = False
                            S = S or x.a[0]
                        if not ok:
                            bad.setdefault("the result is not the first %d state words in order" % (outlen // word), (u, None, k))
                            continue
                        fd = Feeds(ev, base, N, False)
                        fd.ex = o.st.ev
                        got = merge_f(fd.of(S))
                        tot = k * N + u
                        z = (-(u + 1 + lenw)) % N
                        want = merge([("s", buf0, 0, u), ("k", 0x80, 1), ("k", 0, z)] + [("k", b, 1) for b in (8 * tot).to_bytes(lenw, "big")])
                        if got != want:
                            bad.setdefault("final blocks are %s; must be %s" % (pshow(got), pshow(want)), (u, None, k))
                    except Unres as e:
                        und += 1
                        self.why = str(e)
                if not hit and k * N < 1 << 59:
                    bad.setdefault("does not return", (u, None, k))
        return bad, n, und

    def check_finish_sponge(self, rel, pad, outlen, key=None, self_t=None):
        outs, av = self.run(key or self.method("finish"))
        self_t = av[0]
        st, bf, ints = self.sh
        bad, n, und = {}, 0, 0
        base = at_path(self_t, st[0])
        buf0 = at_path(self_t, bf[0])
        N = self.N
        for u in range(N):
            env, sizes = self.setup(self_t, rel, u, 0)
            hit = False
            for o in outs:
                ev = Ev(self.E, env, sizes, N)
                if not consistent(ev, o):
                    continue
                hit = True
                n += 1
                try:
                    if unsure(ev, o):
                        raise Unres("path condition")
                    out = ev.get(o.ret, 0, outlen)
                    S, ok = None, len(out) == outlen // 8
                    for j, p in enumerate(out):
                        if not (p[0] == "s" and p[1].op == "to_le" and p[2] == 0 and p[3] == 8):
                            raise Unres("output " + pshow([p]))
                        x = p[1].a[1]
                        if not (x.op == "prj" and x.a[1][0] == "i" and isint(x.a[1][1])):
                            raise Unres("output word")
                        if x.a[1][1].a[0] != j or (S is not None and x.a[0] is not S):
                            ok = False
                        S = S or x.a[0]
                    if not ok:
                        bad.setdefault("the result is not the first %d state words in order" % (outlen // 8), (u, None, 0))
                        continue
                    fd = Feeds(ev, base, N, True)
                    fd.ex = o.st.ev
                    got = merge_f(fd.of(S))
                    want = merge([("s", buf0, 0, u)] + ([("k", pad | 0x80, 1)] if u == N - 1 else [("k", pad, 1), ("k", 0, N - u - 2), ("k", 0x80, 1)]))
                    if got != want:
                        bad.setdefault("final block is %s; must be %s" % (pshow(got), pshow(want)), (u, None, 0))
                except Unres as e:
                    und += 1
                    self.why = str(e)
            if not hit:
                bad.setdefault("does not return", (u, None, 0))
        return bad, n, und

    def check_new(self, rel, ivs):
        key = self.method("new")
        outs, av = self.run(key)
        st, bf, ints = self.sh
        for o in outs:
            ev = Ev(self.E, {}, {}, self.N)
            try:
                got = [ev.num(project(at_path(o.ret, st[0]), ("i", I(j)))) for j in range(st[1])]
                cnt = [ev.num(at_path(o.ret, p)) for p in ints]
            except Unres as e:
                return {}, 1, 1
            if got != ivs:
                return {"initial state differs from the standard's": (0, None, 0)}, 1, 0
            if cnt != [RELS[r](0, 0, self.N) for r in rel]:
                return {"counters start at %s" % cnt: (0, None, 0)}, 1, 0
        return {}, len(outs), 0


def run_context(ctx, arch, crate, path, nm):
    sponge = nm in SHA3
    N = SHA3[nm][0] if sponge else SHA2[nm][1]
    c = Context(ctx, arch, crate, path, sponge, N)
    if c.sh is None or c.sh[1][1] != N or not all(c.method(m) for m in ("new", "update", "finish")):
        ctx.count("contexts not understood", 1)
        return
    thorough = ctx.tier == "thorough"
    best = None
    for rel in relations(c.sh[2]):
        bad, n, und = c.check_update(rel, False, 40)
        b2, _, _ = c.check_new(rel, [])
        s = (len(bad) + any("counters" in x for x in b2), und)
        if best is None or s < best[0]:
            best = (s, rel)
        if s == (0, 0):
            break
    rel = best[1]
    ivs = [0] * 25 if sponge else iv(nm)
    site = "%s:%s" % (arch, nm)
    checks = [("new", lambda: c.check_new(rel, ivs)), ("update", lambda: c.check_update(rel, thorough))]
    if sponge:
        checks.append(("finish", lambda: c.check_finish_sponge(rel, SHA3[nm][1], SHA3[nm][2])))
    else:
        w, _, lw, ol, _ = SHA2[nm]
        checks.append(("finish", lambda: c.check_finish_md(rel, w, lw, ol, ivs)))
    for m, fn in checks:
        bad, n, und = fn()
        ctx.count("path classes decided", n - und)
        ctx.count("path classes undecided", und)
        f = crate.fns[c.method(m)]
        for b, (u, L, k) in sorted(bad.items())[:3]:
            ctx.ob("hash-" + m, "%s::%s:%s" % (site, m, re.sub(r"\d+", "#", b)[:60]), False, "with %s bytes buffered%s after %d blocks: %s" % (u, "" if L is None else " and %d bytes of input" % L, k, b), "%s:%s" % (f["file"], f["line"]))
        if not bad:
            ctx.ob("hash-" + m, "%s::%s" % (site, m), True)
        ctx.analysed.add(c.method(m))


def C30(ctx):
    ctx.rule("hash-new", "a new context has the standard's initial state and nothing buffered or counted")
    ctx.rule("hash-update", "for every fill level and input length: blocks compressed ++ bytes left in the buffer = bytes buffered ++ whole input, in order; counters follow; less than a block stays buffered")
    ctx.rule("hash-finish", "for every fill level: the blocks compressed last are the buffered bytes and the standard's padding with the full message length; the result is the state's words in order")
    n = 0
    for arch, crate in archs(ctx):
        for path in sorted(crate.adts):
            nm = path.rsplit("::", 1)[-1]
            if crate.adts[path].get("reachable") and (nm in SHA2 or nm in SHA3) and path.startswith("graviola::mid"):
                n += 1
                guarded(ctx, "%s %s" % (arch, nm), run_context, arch, crate, path, nm)
    ctx.floor("hash context types", n, 10)
