"""C01, second half: exactly what the authenticators absorb.

GHASH and Poly1305 are taken apart layer by layer, each against the layer below held opaque: the AEAD's decrypt must compare the
caller's tag with 16 bytes whose transcript is the one of the standard; the AES-GCM kernel must absorb padded AAD and the padded
ciphertext as received; Ghash::add and Poly1305::add_bytes/finish must absorb every byte once, in order.  Terms are decided for every
residue of the lengths and every threshold that occurs in them."""
import re
from .core import guarded
from .engine import *
from .q import *
from .rules_stream import *
from .rules_stream import merge, size, pshow, Unres, Ev, Feeds, consistent, constants, unsure

LOW = re.compile(r"^<?graviola::low::")
GMUL = re.compile(r"::ghash::_?mul(\d*)$")
GADD = re.compile(r"::ghash::Ghash(::<[^:]*>)?::add$")


class BEv(Ev):
    """byte contents also through in-place loops (chunks not yet reached) and vector loads"""

    def get(self, t, lo, hi):
        t = strip_at(t)
        if t.op == "phi" and lo < hi and self.E.phis.get(t):
            outs = []
            for y in self.E.phis[t]:
                if y is t:
                    continue
                y = self.skip(y, t, lo, hi)
                if y is not t and y not in outs:
                    outs.append(y)
            if len(outs) == 1:
                return self.get(outs[0], lo, hi)
            rs = [self.get(y, lo, hi) for y in outs]
            if rs and all(merge(r) == merge(rs[0]) for r in rs):
                return rs[0]
            raise Unres("loop-carried content")
        if t.op == "prj" and t.a[1][0] == "r" and strip_at(t.a[0]).op == "phi":
            b, e = self.num(t.a[1][1]), self.num(t.a[1][2])
            if hi > e - b:
                raise Unres("out of range")
            return self.get(t.a[0], lo + b, hi + b)
        return Ev.get(self, t, lo, hi)

    def length(self, t):
        t = strip_at(t)
        if t.op == "call" and re.search(r"::(into_bytes|Poly1305::finish)$", t.a[0]) or t.op == "out" and t.a[0].op == "call" and t.a[1] == 1 and t.a[0].a[0].endswith("::encrypt_block"):
            return 16
        return Ev.length(self, t)

    def skip(self, y, phi, lo, hi):
        """y without the writes of loop elements that never touch [lo, hi)"""
        while y.op == "upd" and y.a[1][0] == "r":
            b, e = y.a[1][1], y.a[1][2]
            ids = {z.a[0] for z in list(subterms(b)) + list(subterms(e)) if z.op in ("itidx", "itend")}
            if not ids:
                B, X = self.num(b), self.num(e)
            elif len(ids) == 1:
                i = next(iter(ids))
                it = self.E.iters.get(i)
                if not it or it[0] not in ("chunks_exact", "chunks"):
                    break
                n, total = self.num(it[2]), self.num(self.E.len_of(it[1]))
                cnt = total // n if it[0] == "chunks_exact" else -(-total // n)
                if mk("itidx", i) in self.env:
                    # inside the loop: elements before this one may have been written
                    first, last = 0, self.env[mk("itidx", i)] - n
                    cnt = last // n + 1
                else:
                    first, last = 0, (cnt - 1) * n
                if cnt <= 0:
                    y = y.a[0]
                    continue
                def at(v, x):
                    e2 = BEv(self.E, dict(self.env), self.sizes, self.N)
                    e2.env[mk("itidx", i)] = v
                    e2.env[mk("itend", i)] = min(total, v + n)
                    return e2.num(x)
                B, X = at(first, b), at(last, e)
            else:
                break
            if B < hi and lo < X:
                break
            y = y.a[0]
        return y

    # ------------------------------------------------ machine words holding bytes of memory
    def mem(self, p):
        """(content, byte offset) a raw pointer term points into"""
        off = 0
        while True:
            if p.op == "call" and re.search(r"::(cast|cast_mut|cast_const)$", p.a[0]):
                p = p.a[2][0]
            elif p.op == "call" and re.search(r"ptr.*::add$|\*(const|mut) T>::add$", p.a[0]):
                off += self.num(p.a[2][1])
                p = p.a[2][0]
            elif p.op == "cast":
                p = p.a[-1]
            elif p.op == "at":
                return p.a[0], off
            else:
                raise Unres("pointer " + show(p, 4))

    def word(self, t):
        """bytes of a vector or integer whose most significant byte comes first in memory order of the message"""
        if t.op == "from_be":
            n = t.a[0] if isinstance(t.a[0], int) else self.num(t.a[0])
            return self.get(t.a[1], 0, n)
        if t.op == "cast" or t.op == "transmute":
            return self.word(t.a[-1])
        if t.op == "call":
            n = t.a[0].rsplit("::", 1)[-1]
            if n in ("_mm_shuffle_epi8", "_mm512_shuffle_epi8", "_mm256_shuffle_epi8"):
                self.swap(t.a[2][1])
                return self.load(t.a[2][0])
            if n == "vextq_u64" and t.a[2][0] is t.a[2][1] and str(t.a[1]).endswith("::<1>"):
                # the two halves exchanged, each reversed
                x = t.a[2][0]
                if x.op == "call" and x.a[0].endswith("::vreinterpretq_u64_u8"):
                    x = x.a[2][0]
                    if x.op == "call" and x.a[0].endswith("::vrev64q_u8"):
                        return self.load(x.a[2][0])
            if re.match(r"from_u128|u128_to_m128i$", n):
                return self.word(t.a[2][0])
        raise Unres("block " + show(t, 4))

    LOADS = {"_mm_loadu_si128": 16, "_mm_lddqu_si128": 16, "_mm512_loadu_si512": 64, "_mm512_loadu_epi8": 64, "_mm512_loadu_epi32": 64, "_mm512_loadu_epi64": 64, "vld1q_u8": 16}

    def load(self, t):
        if t.op == "call":
            n = t.a[0].rsplit("::", 1)[-1]
            if n in self.LOADS:
                c, off = self.mem(t.a[2][0])
                return self.get(c, off, off + self.LOADS[n])
            if n.endswith("_shuffle_epi8"):
                self.swap(t.a[2][1])
                if self.load(t.a[2][0]):
                    raise Wrong("a block has its bytes reversed twice")
        raise Unres("load " + show(t, 4))

    def swap(self, m):
        """m is the full byte reversal of each 16 byte lane"""
        if m.op == "call" and "broadcast_i32x4" in m.a[0]:
            m = m.a[2][0]
        v = []
        def flat(x):
            if x.op == "agg":
                for y in x.a[2:]:
                    flat(y)
            elif isint(x):
                v.append(x.a[0] & M64)
            else:
                raise Unres("mask")
        flat(m)
        b = b"".join(x.to_bytes(8, "little") for x in v)
        if not b or any(b[16 * i:16 * i + 16] not in (bytes(range(15, -1, -1)), bytes(range(16 * i + 15, 16 * i - 1, -1))) for i in range(len(b) // 16)):
            raise Wrong("the byte order mask is not a full byte reversal")


class Wrong(Exception):
    """a definite departure from the transcript"""


XOR = re.compile(r"::(_mm_xor_si128|_mm512_xor_epi64|_mm512_xor_epi32|_mm512_xor_si512|veorq_u64|veorq_u8)$")


class GFeeds(Feeds):
    """what a GHASH accumulator value has absorbed"""

    def of(self, t, base=None, d=0):
        E, ev = self.ev.E, self.ev
        if t is self.base or t is base:
            return []
        if d > 400:
            raise Unres("deep")
        if t.op == "at":
            return self.of(t.a[0], base, d)
        if t.op == "prj" and t.a[0].op == "out" and t.a[0].a[0].op == "call":
            c, k = t.a[0].a[0], t.a[0].a[1]
            if GADD.search(c.a[0]) and k == 0:
                return self.of(project(strip_at(c.a[2][0]), t.a[1]), base, d + 1) + pad16(ev, strip_at(c.a[2][1]))
        if t.op == "prj" and t.a[0].op == "call" and re.search(r"Ghash(::<.*>|<.*>)?::new$", t.a[0].a[0]) or t.op == "call" and re.search(r"::(zero|_mm_setzero_si128|vdupq_n_u64)$", t.a[0]):
            return []
        if t.op == "call":
            m = GMUL.search(t.a[0])
            if m:
                n = int(m.group(1) or 1)
                xs = list(t.a[2])
                if n > 1:
                    xs = xs[1:]
                    if len(xs) not in (n, n // 4):
                        raise Unres("multiplier")
                else:
                    xs = xs[:1]
                return self.split(xs[0], base, d) + sum((ev.word(x) for x in xs[1:]), [])
        b, pr = t, []
        while b.op == "prj":
            pr.append(b.a[1])
            b = b.a[0]
        if b.op == "phi" and E.phis.get(b):
            entry, step = [], []
            for y in E.phis[b]:
                for e in reversed(pr):
                    y = project(y, e)
                if y is t or y in entry or y in step:
                    continue
                (step if any(z is b for z in subterms(y, set(), E.phis)) else entry).append(y)
            if len(step) > 1:
                # one per table variant: each must absorb the same
                return self.alike([lambda s=s: self.fold(t, b, entry, [s], base, d) for s in step])
            return self.fold(t, b, entry, step, base, d)
        if t.op == "ite":
            return self.of(t.a[1] if ev.num(t.a[0]) else t.a[2], base, d + 1)
        raise Unres("state " + show(t, 3))

    def alike(self, fs):
        rs = [f() for f in fs]
        if any(merge_f(r) != merge_f(rs[0]) for r in rs):
            bad = next(r for r in rs if merge_f(r) != merge_f(rs[0]))
            raise Wrong("table variants absorb different data: %s / %s" % (pshow(merge_f(rs[0])), pshow(merge_f(bad))))
        return rs[0]

    def split(self, x, base, d):
        """state xor block"""
        if not (x.op == "call" and XOR.search(x.a[0])):
            if len(self.ev.word(x)):
                raise Wrong("the hash state is not carried into a block, so everything before it is forgotten")
            raise Unres("first block " + show(x, 4))
        a, b = x.a[2]
        for s, w in ((a, b), (b, a)):
            try:
                blk = self.ev.word(w)
            except Unres:
                continue
            if s.op == "call" and "inserti32x4" in s.a[0]:
                s = s.a[2][1]
            return self.of(s, base, d + 1) + blk
        raise Unres("first block " + show(x, 4))

    def fold(self, t, phi, entry, step, base, d):
        # the loop machinery builds plain evaluators: lend it ours
        global_Ev, global_Feeds = RS.Ev, RS.Feeds
        RS.Ev, RS.Feeds = BEv, type(self)
        try:
            return Feeds.fold(self, t, phi, entry, step, base, d)
        finally:
            RS.Ev, RS.Feeds = global_Ev, global_Feeds


from . import rules_stream as RS


def pad16(ev, content):
    n = ev.length(content)
    r = ev.get(content, 0, n)
    return r + ([("k", 0, -n % 16)] if n % 16 else [])


def lens(*steps):
    s = set(range(0, 50)) | {63, 64, 65, 100}
    for n in (128, 256, 512) + steps:
        s |= {n - 17, n - 16, n - 1, n, n + 1, n + 15, n + 16, n + 17, n + 127, n + 129, 2 * n - 1, 2 * n, 2 * n + 1, 2 * n + 17, 3 * n + 33}
    s |= {4095, 4096, 4097, 65535, 65536, 65537 + 16, (1 << 20) + 35, (1 << 32) + 5}
    return sorted(x for x in s if x >= 0)


def thresholds(outs):
    return sorted({c + d for c in constants(outs) if 16 < c < 1 << 40 for d in (-1, 0, 1, 16)})


class Report:
    def __init__(self):
        self.bad, self.n, self.und, self.why = {}, 0, 0, None

    def run(self, fn, at):
        try:
            w = fn()
            self.n += 1
            if w:
                self.bad.setdefault(re.sub(r"\d+", "#", w)[:70], (w, at))
        except Wrong as e:
            self.n += 1
            self.bad.setdefault(re.sub(r"\d+", "#", str(e))[:70], (str(e), at))
        except Unres as e:
            self.und += 1
            self.why = str(e)

    def emit(self, ctx, rule, site, where):
        ctx.count("transcript classes decided", self.n)
        ctx.count("transcript classes undecided", self.und)
        for w, at in list(self.bad.values())[:3]:
            ctx.ob(rule, site, False, "%s: %s" % (at, w), where)
        if not self.bad and self.n:
            ctx.ob(rule, site, True)


def eng(ctx, crate, opaque, unroll=32):
    E = ctx.engine(crate, opaque=opaque, K=64)
    E.eager = False
    E.unroll = unroll
    return E


def differ(got, want):
    got, want = merge_f(got), merge(want)
    if got != want:
        for p in got:
            # contents this rule has no reading of are no ground for a report, unless they are plainly the cipher's output
            if p[0] == "s" and p[1].op != "deref" and not any(x.op == "call" and re.search(r"aesenc|aes\w*_block", x.a[0]) for x in subterms(p[1])):
                raise Unres("source " + show(p[1], 4))
        return "absorbs %s; must absorb %s" % (pshow(got), pshow(want))


# ------------------------------------------------------------------------------------------------ GHASH
def ghash_add(ctx, arch, crate, key):
    E = eng(ctx, crate, lambda k, p: bool(GMUL.search(p)))
    outs, av = E.entry(key)
    ctx.done(E)
    outs = [o for o in outs if o.kind == "return"]
    selfp, data = av[0].a[0], av[1].a[0][1]
    cur = cur_field(crate, key)
    r = Report()
    finals = [project(E.content(o.st, selfp), cur) for o in outs]
    for L in sorted(set(lens()) | set(thresholds(outs))):
        hit = False
        for o, c in zip(outs, finals):
            ev = BEv(E, {mk("len", data): L}, {mk("deref", data): L}, 16)
            if not consistent(ev, o):
                continue
            hit = True
            if unsure(ev, o):
                r.und += 1
                continue
            def one():
                f = GFeeds(ev, project(mk("deref", selfp[1]), cur), 16, False)
                f.ex = o.st.ev
                src = [("s", mk("deref", data), 0, L)]
                return differ(f.of(c), src + [("k", 0, -L % 16)])
            r.run(one, "%d byte input" % L)
        if not hit and L < 1 << 31:
            r.bad.setdefault("noreturn", ("does not return", "%d byte input" % L))
    r.emit(ctx, "ghash-absorb", "%s/%s" % (key, arch), ctx.locate(crate, key))
    return r


def cur_field(crate, key):
    """the accumulator field of the Ghash type: its only vector field"""
    p = crate.fns[key]["self_adt"]
    fs = crate.types[crate.adts[p]["ty"]]["variants"][0][1]
    vs = [i for i, (n, ti) in enumerate(fs) if ti is not None and crate.types[ti]["k"] not in ("ref",)]
    if len(vs) != 1:
        raise Unres("accumulator field")
    return ("f", vs[0])


def gcm_kernel(ctx, arch, crate, key):
    E = eng(ctx, crate, lambda k, p: bool(GMUL.search(p) or GADD.search(p) or re.search(r"low::\w+::aes::", p)), unroll=4)
    outs, av = E.entry(key)
    ctx.done(E)
    outs = [o for o in outs if o.kind == "return"]
    gi = next(i for i, a in enumerate(crate.fns[key]["args"]) if "Ghash" in a) if crate.fns[key].get("args") else 1
    gp, aad, cin = av[1].a[0], av[3].a[0][1], av[4].a[0][1]
    add = next(k for k in crate.fns if GADD.search(k))
    cur = cur_field(crate, add)
    r = Report()
    finals = [project(E.content(o.st, gp), cur) for o in outs]
    for a in (0, 1, 15, 16, 17, 300, 4096 + 15, 65537, (1 << 20) + 35, (1 << 32) + 5) + tuple(thresholds(outs)):
        ls = lens() if a == 17 else (17, 300) if a > 65537 else (0, 1, 15, 16, 17, 127, 128, 129, 255, 256, 257, 513, 4099)
        for L in sorted(set(ls) | set(thresholds(outs) if a == 17 else ())):
            hit = False
            for o, c in zip(outs, finals):
                ev = BEv(E, {mk("len", aad): a, mk("len", cin): L}, {mk("deref", aad): a, mk("deref", cin): L}, 16)
                if not consistent(ev, o):
                    continue
                hit = True
                if unsure(ev, o):
                    r.und += 1
                    continue
                def one():
                    f = GFeeds(ev, project(mk("deref", gp[1]), cur), 16, False)
                    f.ex = o.st.ev
                    return differ(f.of(c), [("s", mk("deref", aad), 0, a), ("k", 0, -a % 16), ("s", mk("deref", cin), 0, L), ("k", 0, -L % 16)])
                r.run(one, "%d bytes of AAD, %d of ciphertext" % (a, L))
            if not hit and L < 1 << 31:
                r.bad.setdefault("noreturn", ("does not return", "%d byte ciphertext" % L))
    r.emit(ctx, "ghash-absorb", "%s/%s" % (key, arch), ctx.locate(crate, key))
    return r


# ------------------------------------------------------------------------------------------------ the mid level
ENCB = re.compile(r"::encrypt_block$")
GCMK = re.compile(r"::aes_gcm::(de|en)crypt$")
CIPH = re.compile(r"::X?ChaCha20::(\w+)$")
PADD = re.compile(r"::Poly1305::add_bytes$")


class Mid:
    def __init__(self, E, o, av, ev):
        self.E, self.o, self.ev = E, o, ev
        self.self_, self.nonce, self.aad, self.cin, self.tag = av
        self.d = lambda p: mk("deref", p.a[0][1])

    # -------------------------------------------- the transcript of a MAC value
    def trans(self, t, d=0):
        ev = self.ev
        t = strip_at(t)
        if d > 100:
            raise Unres("deep")
        if t.op == "at":
            return self.trans(t.a[0], d)
        if t.op == "ite":
            return self.trans(t.a[1] if ev.num(t.a[0]) else t.a[2], d + 1)
        if t.op == "out" and t.a[0].op == "call":
            c, k = t.a[0], t.a[1]
            v = c.a[2]
            if GADD.search(c.a[0]) and k == 0:
                return self.trans(v[0], d + 1) + pad16(ev, strip_at(v[1]))
            if PADD.search(c.a[0]) and k == 0:
                x = strip_at(v[1])
                return self.trans(v[0], d + 1) + ev.get(x, 0, ev.length(x))
            if GCMK.search(c.a[0]) and k == 1:
                self.key_of(v[0])
                self.counter(strip_at(v[2]))
                return self.trans(v[1], d + 1) + pad16(ev, strip_at(v[3])) + pad16(ev, strip_at(v[4]))
        if t.op == "call" and t.a[0].endswith("::new"):
            v = t.a[2]
            if "Ghash" in t.a[0]:
                self.key_of(v[0])
                return []
            if "Poly1305" in t.a[0]:
                self.polykey(strip_at(v[0]))
                return []
        raise Unres("MAC state " + show(t, 4))

    def key_of(self, t):
        if not any(x is self.d(self.self_) for x in subterms(t, set(), self.E.phis)):
            raise Wrong("a value used as key does not come from the key")

    def counter(self, c):
        want = [("s", self.d(self.nonce), 0, 12), ("k", 0, 3), ("k", 1, 1)]
        got = merge(self.ev.get(c, 0, 16))
        if got != merge(want):
            if any(p[0] == "s" and p[1].op != "deref" for p in got):
                raise Unres("counter block")
            raise Wrong("counter block is %s, not nonce || 00000001" % pshow(got))

    def polykey(self, k):
        g = merge(self.ev.get(k, 0, 32))
        src = {p[1] for p in g if p[0] == "s"}
        outs = [x for x in src if x.op == "out" and x.a[0].op == "call" and CIPH.search(x.a[0].a[0])]
        if len(src) != 1 or not outs:
            if outs and all(x in outs for x in src):
                raise Unres("key stream in parts")
            if outs:
                raise Wrong("the one-time key is %s, not 32 bytes of key stream" % pshow(g))
            raise Unres("one-time key " + pshow(g))
        x = outs[0]
        if g != [("s", x, 0, 32)]:
            raise Wrong("the one-time key is %s, not the first 32 bytes of key stream" % pshow(g))
        c = x.a[0]
        buf = strip_at(c.a[2][x.a[1]])
        z = merge(self.ev.get(buf, 0, 32))
        if z != [("k", 0, 32)]:
            if all(p[0] == "k" for p in z) or any(p[0] == "s" and p[1].op == "deref" for p in z):
                raise Wrong("the one-time key is encrypted data, not key stream: " + pshow(z))
            raise Unres("key stream input")
        st = strip_at(c.a[2][1 - x.a[1]])
        if not (st.op == "call" and CIPH.search(st.a[0]) and st.a[0].endswith("::new")):
            raise Unres("cipher state " + show(st, 4))
        self.key_of(st.a[2][0])
        kb, nb = strip_at(st.a[2][0]), strip_at(st.a[2][1])
        n = self.ev.length(nb)
        got = merge(self.ev.get(nb, 0, n))
        N = self.d(self.nonce)
        want = [("s", N, 0, 24)] if n == 24 else merge([("k", 0, 4), ("s", N, 0, 12)])
        if got != want:
            if any(p[0] == "s" and p[1].op != "deref" for p in got):
                raise Unres("nonce")
            raise Wrong("the block counter and nonce are %s; must be %s" % (pshow(got), pshow(want)))

    # -------------------------------------------- the 16 byte tag
    def tag_transcript(self, x):
        E, ev = self.E, self.ev
        x = strip_at(x)
        n = ev.length(x)
        if n != 16:
            raise Wrong("only %d bytes of tag are compared" % n)
        if x.op == "prj" and x.a[1][0] == "r":
            g = merge(ev.get(x, 0, 16))
            if len(g) == 1 and g[0][0] == "s" and g[0][2:] == (0, 16):
                x = g[0][1]
        if x.op == "call" and x.a[0].endswith("::Poly1305::finish"):
            return self.trans(x.a[2][0])
        st = None
        for i in range(16):
            v = project(x, ("i", I(i)))
            leaves = self.xors(v)
            hs = [c for c in leaves if c[0].op == "call" and c[0].a[0].endswith("::into_bytes")]
            ks = [c for c in leaves if c[0].op == "out" and c[0].a[0].op == "call" and ENCB.search(c[0].a[0].a[0]) and c[0].a[1] == 1]
            if len(hs) + len(ks) != len(leaves):
                raise Unres("tag byte " + show(v, 4))
            if len(hs) != 1 or len(ks) != 1:
                raise Wrong("byte %d of the tag is not (hash byte xor key stream byte): %d hash and %d key stream terms" % (i, len(hs), len(ks)))
            if hs[0][1] != i or ks[0][1] != i:
                raise Wrong("byte %d of the tag takes byte %d of the hash and byte %d of the key stream" % (i, hs[0][1], ks[0][1]))
            if st is None:
                st = hs[0][0], ks[0][0]
            elif st != (hs[0][0], ks[0][0]):
                raise Unres("tag bytes from different states")
        c = st[1].a[0]
        self.key_of(c.a[2][0])
        self.counter(strip_at(c.a[2][1]))
        return self.trans(st[0].a[2][0])

    def xors(self, v):
        v = strip_at(v)
        if v.op == "bin" and v.a[0] == "BitXor":
            return self.xors(v.a[1]) + self.xors(v.a[2])
        if isint(v):
            return []
        if v.op == "prj" and v.a[1][0] == "i":
            return [(strip_at(v.a[0]), self.ev.num(v.a[1][1]))]
        raise Unres("tag byte " + show(v, 4))


MIDLENS = [(a, c) for a in (0, 1, 15, 16, 17, 33, 255, 256, 257, 65535, 65537 + 16, (1 << 32) + 3) for c in (0, 1, 7, 8, 15, 16, 17, 63, 64, 65, 255, 256, 257, 513, 65541, (1 << 29) + 1, (1 << 32) + 7, (1 << 33) + 5)]


def mid_tag(ctx, arch, crate, pub, key):
    from .rules_aead import is_ok, equalities
    E = eng(ctx, crate, lambda k, p: bool(LOW.match(p)))
    outs, av = E.entry(key)
    ctx.done(E)
    oks = [o for o in outs if is_ok(o)]
    r = Report()
    more = [(a, c) for t in thresholds(oks) for a, c in ((t, 17), (17, t))]
    A, C, Tg = av[2].a[0][1], av[3].a[0][1], av[4].a[0][1]
    for a, c in MIDLENS + more:
        for o in oks:
            ev = BEv(E, {mk("len", A): a, mk("len", C): c, mk("len", Tg): 16}, {mk("deref", A): a, mk("deref", C): c, mk("deref", Tg): 16, mk("deref", av[1].a[0][1]): av[1].a[2] if isinstance(av[1].a[2], int) else 12}, 16)
            if av[1].a[2] is not None and isint(av[1].a[2]):
                ev.sizes[mk("deref", av[1].a[0][1])] = av[1].a[2].a[0]
            if not consistent(ev, o) or unsure(ev, o):
                continue
            m = Mid(E, o, av, ev)
            T = m.d(m.tag)
            def one():
                eqs = [(x, y) if y is T else (y, x) for kind, x, y in equalities(E, o) if T in (x, y)]
                if not eqs:
                    # only part of the tag?
                    part = [(x, y) for kind, x, y in equalities(E, o) for z in (x, y) if any(q is T for q in subterms(z))]
                    for x, y in part:
                        for z in (x, y):
                            z = strip_at(z)
                            if z.op == "prj" and z.a[1][0] == "r" and strip_at(z.a[0]) is T and merge(ev.get(z, 0, ev.length(z))) != [("s", T, 0, 16)]:
                                raise Wrong("only bytes %d..%d of the received tag are compared" % (ev.num(z.a[1][1]), ev.num(z.a[1][2])))
                    raise Unres("no comparison with the received tag found")
                got = m.tag_transcript(eqs[0][0])
                sA, sC = [("s", m.d(m.aad), 0, a)], [("s", m.d(m.cin), 0, c)]
                gcm = "AesGcm" in key
                z = lambda n: [("k", 0, -n % 16)]
                k = 8 if gcm else 1
                le = [("k", b, 1) for b in b"".join((k * n & M64).to_bytes(8, "big" if gcm else "little") for n in (a, c))]
                return differ(got, sA + z(a) + sC + z(c) + le)
            r.run(one, "%d bytes of AAD, %d of ciphertext" % (a, c))
    # a tag of any other length must not be able to satisfy the comparison
    for n in (0, 1, 4, 8, 12, 15, 17, 20, 32):
        for o in oks:
            ev = BEv(E, {mk("len", A): 16, mk("len", C): 16, mk("len", Tg): n}, {mk("deref", A): 16, mk("deref", C): 16, mk("deref", Tg): n}, 16)
            if not consistent(ev, o) or unsure(ev, o):
                continue
            T = mk("deref", Tg)
            def short():
                xs = [x if y is T else y for kind, x, y in equalities(E, o) if T in (x, y)]
                ls = [ev.length(x) for x in xs]
                if ls and all(l == n for l in ls):
                    return "a tag of that length can be accepted: it is compared with as many computed bytes"
            r.run(short, "%d byte tag" % n)
    r.emit(ctx, "tag-transcript", "%s::decrypt/%s" % (pub, arch), ctx.locate(crate, key))
    return r
