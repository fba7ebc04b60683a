"""RSA: verification gates (C12), private-operation self check (C13), key generation (C18)."""
import re
from .core import guarded
from .engine import *
from .engine import _lin
from .q import *
from .rules_hash import digest, hash_engine
from .rules_sign import watch_retries
from .rules_posint import posint
from .rules_ec import archs, av_root, known_len, covers_raw, rng_calls, consumed

# DER prefixes of DigestInfo (RFC 8017 section 9.2 note 1), re-derived here from the OIDs
def digestinfo(arc, hlen):
    oid = bytes([0x06, 9, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, arc])
    alg = oid + bytes([0x05, 0x00])
    alg = bytes([0x30, len(alg)]) + alg
    body = alg + bytes([0x04, hlen])
    return bytes([0x30, len(body) + hlen]) + body


HASHES = {"sha256": (32, digestinfo(1, 32)), "sha384": (48, digestinfo(2, 48)), "sha512": (64, digestinfo(3, 64))}


def lin_at(t, K, k):
    """value of a position that is linear in the length K, at K = k (None if it is not)"""
    if isint(t):
        return t.a[0]
    if t is K:
        return k
    if t.op == "lin":
        c, d = _lin(t)
        xs = {x: lin_at(x, K, k) for x in d}
        return None if None in xs.values() else c + sum(n * xs[x] for x, n in d.items())
    if t.op in ("lt", "eq"):
        a, b = lin_at(t.a[0], K, k), lin_at(t.a[1], K, k)
        return None if a is None or b is None else int(a < b if t.op == "lt" else a == b)
    if t.op == "ite":
        c = lin_at(t.a[0], K, k)
        return None if c is None else lin_at(t.a[1] if c else t.a[2], K, k)
    if t.op in ("bin", "sat"):
        a, b = lin_at(t.a[1], K, k), lin_at(t.a[2], K, k)
        if a is None or b is None:
            return None
        if t.op == "sat":
            return max(a - b, 0) if t.a[0] == "Sub" else None
        f = {"Add": a + b, "Sub": a - b, "Mul": a * b, "BitAnd": a & b, "BitOr": a | b, "Shr": a >> min(b, 64), "Shl": a << min(b, 64)}
        if t.a[0] in ("Div", "Rem") and b:
            return a // b if t.a[0] == "Div" else a % b
        return f.get(t.a[0])
    return None


def layout(t, K, k):
    """the bytes of a buffer term at length k: list of ints or (term, offset); None where the construction is not a plain chain of stores"""
    if t.op == "upd":
        b = layout(t.a[0], K, k)
        if b is None:
            return None
        e, v = t.a[1], t.a[2]
        if e[0] == "i":
            p = lin_at(e[1], K, k)
            if p is None or not 0 <= p < len(b):
                return None
            b[p] = v.a[0] if isint(v) else (v, 0)
            return b
        if e[0] == "r":
            lo, hi = lin_at(e[1], K, k), lin_at(e[2], K, k)
            if lo is None or hi is None or not 0 <= lo <= hi <= len(b):
                return None
            w = content_bytes(v, hi - lo, K, k)
            if w is None:
                return None
            b[lo:hi] = w
            return b
        return None
    if t.op == "prj" and t.a[1][0] == "r":
        b = layout(t.a[0], K, k)
        lo, hi = lin_at(t.a[1][1], K, k), lin_at(t.a[1][2], K, k)
        if b is None or lo is None or hi is None:
            return None
        return b[lo:hi]
    if t.op == "rep":
        n = lin_at(t.a[1], K, k) if isinstance(t.a[1], T) else t.a[1]
        return None if n is None or not isint(t.a[0]) else [t.a[0].a[0]] * n
    if t.op == "bytes":
        return list(t.a[0])
    return None


def content_bytes(v, n, K, k):
    if v.op == "rep" and isint(v.a[0]):
        return [v.a[0].a[0]] * n
    if v.op == "bytes":
        return list(v.a[0]) if len(v.a[0]) == n else None
    if v.op == "agg" and v.a[0] == "array":
        return [x.a[0] if isint(x) else (x, 0) for x in v.a[2:]] if len(v.a) - 2 == n else None
    return [(v, j) for j in range(n)]


def pos_int_calls(o, name, value=1):
    return [t for t, v in o.st.facts.items() if t.op == "call" and re.search(name, t.a[0]) and isint(v) and bool(v.a[0]) == bool(value)]


def len_eq(E, o, sig, root_self):
    """len(signature) == something derived from the key"""
    ln = sig.a[2]
    for t, v in o.st.facts.items():
        if t.op == "eq" and isint(v) and v.a[0] == 1 and ln in t.a:
            other = t.a[1] if t.a[0] is ln else t.a[0]
            if covers(E, other, root_self) and not covers(E, other, av_root(sig)):
                return True
        if t is ln and not isint(v) and covers(E, v, root_self):
            return True
    return False


def C12(ctx):
    posint(ctx, ("equals", "less_than", "len_bytes", "len_bits"))
    ctx.rule("rsa-gate", "every path on which RSA verification returns Ok is dominated by: signature length equal to the modulus length, the signature integer below the modulus, and the scheme's full check of the recovered block")
    ctx.rule("rsa-pkcs1", "PKCS#1 v1.5: equality of the whole recovered block with 00 01 FF..FF 00 DigestInfo hash(message), built without reading the signature")
    ctx.rule("rsa-pss", "PSS: trailer 0xbc, top bit clear, every padding byte zero, separator 0x01, and equality of the whole H with a hash of the message hash and the recovered salt")
    for arch, crate in archs(ctx):
        vs = [k for k in method_keys(crate, r"high::rsa::VerifyingKey$") if ret_ty(crate, k)["s"].startswith("core::result::Result<(),")]
        ctx.floor("RSA verification functions (%s)" % arch, len(vs), 6)
        for k in vs:
            guarded(ctx, k + "/" + arch, rsa_verify, arch, crate, k)


def rsa_verify(ctx, arch, crate, key):
    E = hash_engine(ctx, crate) if "pss" in key.rsplit("::", 1)[-1] else ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    self_, sig, msg = av
    rs, rm, rk = av_root(sig), av_root(msg), av_root(self_)
    name = key.rsplit("::", 1)[-1]
    h = [v for n, v in HASHES.items() if n in name]
    oks = [o for o in outs if is_ok(o)]
    ctx.ob("rsa-gate", site + " outcomes", oks and all(is_ok(o) or is_err(o) for o in outs), "no recognisable Ok/Err outcomes", where)
    for o in oks:
        ctx.count("verify Ok paths")
        ctx.ob("rsa-gate", site + " length", len_eq(E, o, sig, rk), "a path to Ok does not require the signature to have exactly the modulus length", where)
        lt = [t for t in pos_int_calls(o, r"::less_than$") if covers_whole(E, t.a[2][0], rs) and not covers(E, t.a[2][0], rk) and covers(E, t.a[2][1], rk) and not covers(E, t.a[2][1], rs)]
        ctx.ob("rsa-gate", site + " range", lt, "a path to Ok does not require the signature integer to be below the modulus", where)
        if "pss" in name:
            pss_gate(ctx, E, o, site, where, h[0][0], rs, rm, rk)
        elif "pkcs1" in name:
            pkcs1_gate(ctx, E, o, site, where, h[0], rs, rm, rk)
        else:
            ctx.ob("rsa-gate", site + " scheme", False, "unknown RSA signature scheme", where)


def recovered(E, t, rs, rk):
    """t is (all of) the big-endian encoding of the public operation's result"""
    x = strip_at(t)
    while x.op == "prj" and x.a[1][0] in ("d", "f"):
        x = x.a[0]
    if x.op == "deref":
        return recovered(E, x.a[0], rs, rk)
    if x.op == "ref" or x.op == "prj":
        return False
    if x.op in ("call", "out"):
        c = x.a[0] if x.op == "out" else x
        return bool(re.search(r"::to_bytes$", c.a[0])) and covers_whole(E, c.a[2][0], rs) and bool(covers(E, c.a[2][0], rk))
    return False


def lens_of(E, o, rk):
    """terms for the modulus length"""
    r = []
    for t in o.st.facts:
        for x in subterms(t):
            if x.op == "call" and re.search(r"::len_bytes$", x.a[0]) and covers(E, x, rk) and x not in r:
                r.append(x)
            if x.op == "len" and re.search(r"to_bytes", str(x.a[0].a[0].a[0].a[0]) if x.a[0].op == "prj" and x.a[0].a[0].op == "prj" and x.a[0].a[0].a[0].op == "call" else "") and x not in r:
                r.append(x)
    return r


def pkcs1_gate(ctx, E, o, site, where, h, rs, rm, rk):
    hlen, di = h
    Ks = lens_of(E, o, rk)
    why = "no equality over the whole recovered block"
    good = False
    for x, y in both(eq_facts(E, o)):
        if not recovered(E, x, rs, rk):
            # a whole-range view of the output buffer
            if not (x.op == "prj" and x.a[1][0] == "r" and x.a[1][1] is I(0) and x.a[1][2] in Ks and recovered(E, x.a[0], rs, rk)):
                continue
        if covers(E, y, rs):
            why = "the expected block is built from the signature"
            continue
        if not covers_whole(E, y, rm):
            why = "the expected block does not depend on the whole message"
            continue
        lo = None
        for K in Ks:
            lo = layout(y, K, 256)
            if lo is not None:
                break
        if lo is not None:
            bad = None
            for k in range(256, 1025, 8):
                lo = layout(y, K, k)
                if lo is None or len(lo) != k:
                    bad = "the expected block is not the modulus length"
                    break
                want = [0, 1] + [255] * (k - 3 - len(di) - hlen) + [0] + list(di)
                if lo[: len(want)] != want:
                    bad = "the expected block does not start 00 01 FF..FF 00 DigestInfo"
                    break
                tail = lo[len(want):]
                if any(not isinstance(b, tuple) for b in tail) or any(not covers_whole(E, b[0], rm) for b in tail[:1]) or (tail[0][0].op != "int" and any(b != (tail[0][0], j) for j, b in enumerate(tail)) and not all(b[1] == 0 for b in tail)):
                    bad = "the expected block does not end with the whole hash of the message"
                    break
            if bad:
                why = bad
                continue
        else:
            # built by a loop or in another way: it must at least contain the right DigestInfo
            ds = dep_set(E, y)
            if not any(t.op == "agg" and t.a[0] == "array" and tuple(b.a[0] if isint(b) else None for b in t.a[2:]) == tuple(di) or t.op == "bytes" and t.a[0] == di for t in ds if isinstance(t, T)):
                why = "the expected block does not contain the DigestInfo of this hash"
                continue
        good = True
        break
    ctx.ob("rsa-pkcs1", site + " block", good, "a path to Ok is not gated by equality of the whole recovered block with the expected one: " + why, where)


def zero_ranges(E, o):
    """(root, lo, hi) byte ranges known to be zero at o: slice equality with zeros, or a completed loop / any / all over the range"""
    r = []
    for x, y in both(eq_facts(E, o)):
        if all_zero(E, y):
            b, pr = base_of(x)
            if pr and pr[-1][0] == "r":
                r.append((x.a[0], pr[-1][1], pr[-1][2]))
    for t in o.st.ev:
        if t.op != "forall":
            continue
        f, v = t.a
        if not isint(v):
            continue
        if f.op == "eq" and v.a[0] == 1 and f.a[1] is I(0):
            f, v = f.a[0], I(0)
        if f.op != "prj" or f.a[1][0] != "i" or v is not I(0):
            continue
        ix = f.a[1][1]
        c, d = _lin(ix) if not isint(ix) else (ix.a[0], {})
        # index = itidx(id) + base
        its = [k for k in d if k.op == "itidx"]
        if len(its) == 1 and d[its[0]] == 1:
            k = E.iters.get(its[0].a[0])
            if k and k[0] == "iter" and mk("exhausted", its[0].a[0]) in o.st.ev:
                lo = sub(ix, its[0])
                n = E.len_of(k[1])
                r.append((f.a[0], lo, add(lo, n)))
        elif ix.op == "phi":
            ki = E.phis.get(ix, {})
            lo = [y for y in ki if y is not add(ix, I(1))]
            if len(lo) == 1:
                for g, w in o.st.facts.items():
                    if g.op == "lt" and g.a[0] is ix and isint(w) and w.a[0] == 0:
                        r.append((f.a[0], lo[0], g.a[1]))
    # OR-accumulation: acc == 0 where acc is a phi that only ever gets acc | x[i]
    for g, w in o.st.facts.items():
        if isint(w) and w.a[0] == 0 and g.op == "phi":
            st = E.phis.get(g, {})
            for s in st:
                if s.op == "bin" and s.a[0] == "BitOr" and g in s.a[1:]:
                    e = s.a[2] if s.a[1] is g else s.a[1]
                    if e.op == "prj" and e.a[1][0] == "i" and e.a[1][1].op == "itidx" and all(q is s or isint(q) and q.a[0] == 0 for q in st):
                        k = E.iters.get(e.a[1][1].a[0])
                        if k and mk("exhausted", e.a[1][1].a[0]) in o.st.ev:
                            r.append((e.a[0], I(0), E.len_of(k[1])))
    return r


def first(t):
    return t.op == "prj" and t.a[1][0] == "i" and t.a[1][1] is I(0)


def message_hash(E, t, rm):
    """t is the whole finished hash of the message alone"""
    d = digest(E, t)
    return bool(d) and d[0] == "new" and len(d[2]) == 1 and d[2][0] is rm


def pss_gate(ctx, E, o, site, where, hlen, rs, rm, rk):
    Ks = lens_of(E, o, rk)

    def em(t):
        return recovered(E, t, rs, rk)

    def from_em(t):
        return covers_whole(E, t, rs) and bool(covers(E, t, rk))
    trailer = top = sep = None
    for t, v in o.st.facts.items():
        if not isint(v):
            continue
        if t.op == "prj" and t.a[1][0] == "i":
            for K in Ks:
                if v.a[0] == 0xbc and t.a[1][1] is add(K, I(-1)) and em(t.a[0]):
                    trailer = True
                if v.a[0] == 1 and t.a[1][1] is add(K, I(-2 * hlen - 2)) and from_em(t.a[0]):
                    sep = True
        z = t
        if z.op == "bin" and z.a[0] == "BitAnd" and v.a[0] == 0 and z.a[1].op == "prj" and first(z.a[1]) and isint(z.a[2]) and z.a[2].a[0] & 0x80 and em(z.a[1].a[0]):
            top = True
        if z.op == "lt" and z.a[0].op == "prj" and first(z.a[0]) and em(z.a[0].a[0]) and isint(z.a[1]) and z.a[1].a[0] <= 0x80 and v.a[0] == 1:
            top = True
        if z.op == "lt" and z.a[1].op == "prj" and first(z.a[1]) and em(z.a[1].a[0]) and isint(z.a[0]) and z.a[0].a[0] < 0x80 and v.a[0] == 0:
            top = True
        if z.op == "bin" and z.a[0].startswith("Shr") and z.a[1].op == "prj" and first(z.a[1]) and em(z.a[1].a[0]) and z.a[2] is I(7) and v.a[0] == 0:
            top = True
    ctx.ob("rsa-pss", site + " trailer", trailer, "a path to Ok does not require the last byte to be 0xbc", where)
    ctx.ob("rsa-pss", site + " top bit", top, "a path to Ok does not require the top bit of the recovered block to be zero", where)
    ctx.ob("rsa-pss", site + " separator", sep, "a path to Ok does not require the 0x01 separator at position emLen-hLen-sLen-2", where)
    zr = zero_ranges(E, o)
    ok = any(from_em(b) and lo is I(0) and any(hi is add(K, I(-2 * hlen - 2)) for K in Ks) for b, lo, hi in zr)
    ctx.ob("rsa-pss", site + " padding", ok, "a path to Ok does not require every padding byte before the separator to be zero", where)
    good = False
    for x, y in both(eq_facts(E, o)):
        if x.op != "prj" or x.a[1][0] != "r" or not from_em(x.a[0]):
            continue
        if not any(x.a[1][1] is add(K, I(-hlen - 1)) and x.a[1][2] is add(K, I(-1)) for K in Ks):
            continue
        if covers_whole(E, y, rm) and from_em(y):
            good = y
    ctx.ob("rsa-pss", site + " hash", good is not False, "a path to Ok is not gated by equality of the whole H with a hash of the message and the recovered salt", where)
    if good is not False:
        ds = [digest(E, x) for x in leaves(E, good)]
        items = [i for d in ds if d for i in d[2]]
        ok = ds and all(d and d[0] == "new" for d in ds) and all(isinstance(i, T) for i in items)
        whole = ok and all(any(x.op == "prj" and x.a[1][0] == "r" and x.a[1][1] is add(K, I(-2 * hlen - 1)) and x.a[1][2] is add(K, I(-hlen - 1)) and from_em(x.a[0]) for i in d[2] for x in subterms(i) for K in Ks) for d in ds)
        ctx.ob("rsa-pss", site + " salt", whole, "the recomputed hash does not cover the whole recovered salt", where)
        ctx.ob("rsa-pss", site + " message hash", ok and all(any(message_hash(E, x, rm) for i in d[2] for x in subterms(i)) for d in ds), "the recomputed hash does not cover the whole hash of the whole message", where)


# ---------------------------------------------------------------- C13
PRIVATE_FIELDS = ("p", "q", "d", "dp", "dq", "iqmp")


def may_ok(o):
    return not is_err(o)


def C13(ctx):
    posint(ctx, ("equals", "less_than"))
    ctx.rule("rsa-crt-check", "every path on which RSA signing writes or returns a signature is dominated by: the encoded message below the modulus, and equality of the encoded message with the public operation applied to that very signature")
    ctx.rule("rsa-no-faulty-output", "on every failing path the caller's signature buffer does not hold anything computed with the private key")
    for arch, crate in archs(ctx):
        ss = [k for k in method_keys(crate, r"high::rsa::SigningKey$", r"sign") if ret_ty(crate, k)["s"].startswith("core::result::Result<")]
        ctx.floor("RSA signing functions (%s)" % arch, len(ss), 6)
        for k in ss:
            guarded(ctx, k + "/" + arch, rsa_sign, arch, crate, k)


def rsa_sign(ctx, arch, crate, key):
    E = ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    self_, sig, msg = av
    rk, rm, rs = av_root(self_), av_root(msg), av_root(sig)
    oks = [o for o in outs if may_ok(o)]
    ctx.ob("rsa-crt-check", site + " outcomes", oks, "no successful outcome", where)
    for o in outs:
        cont = E.content(o.st, ("S", rs.a[0]))
        sigs = [t for t in dep_set(E, cont) | dep_set(E, o.ret) if isinstance(t, T) and t.op == "call" and re.search(r"::to_bytes$", t.a[0]) and covers(E, t.a[2][0], rk)]
        if is_err(o):
            ctx.ob("rsa-no-faulty-output", site, not covers(E, cont, rk), "on a failing path the signature buffer holds data computed with the key (%s)" % show(cont, 3), where)
            ctx.count("failing paths")
            continue
        ctx.count("signing paths")
        ctx.ob("rsa-crt-check", site + " value", sigs, "the signature written is not the encoding of an integer computed with the key", where)
        for s in sigs[:1]:
            M = strip_at(s.a[2][0])
            good = False
            for t in pos_int_calls(o, r"::equals$"):
                for x, y in both([(t.a[2][0], t.a[2][1])]):
                    x, y = strip_at(x), strip_at(y)
                    if M in dep_set(E, x) and covers_whole(E, y, rm) and M not in dep_set(E, y) and not any(q.op == "call" and re.search(r"mod_exp|mont_exp", q.a[0]) for q in dep_set(E, y) if isinstance(q, T)) and covers(E, x, rk):
                        # the public operation applied to M and nothing else secret: a Montgomery product chain
                        good = y
            ctx.ob("rsa-crt-check", site + " verified", good, "a signature is released without checking that the public operation on it gives back the encoded message", where)
            lt = [t for t in pos_int_calls(o, r"::less_than$") if covers_whole(E, t.a[2][0], rm) and M not in dep_set(E, t.a[2][0])]
            ctx.ob("rsa-crt-check", site + " range", lt, "the encoded message is not required to be below the modulus", where)


# ---------------------------------------------------------------- C18
KEYSIZES = (2048, 3072, 4096, 6144, 8192)


def C18(ctx):
    posint(ctx, ("equals", "less_than", "is_coprime", "len_bits", "is_even"))
    ctx.rule("rsa-generate", "for every key size, every path on which RSA key generation returns a key is dominated by: each prime taken from a successful RNG fill of exactly half the modulus width, with its top two bits and low bit set, "
             "found coprime to the product of small primes and accepted by Miller-Rabin on a base from a successful RNG fill that is greater than 1 and less than w-1; the two primes unequal; the key holding exactly those primes, their product and e=65537")
    ctx.rule("miller-rabin", "a base is counted as a pass only if b^m = 1, b^m = w-1 or some later square = w-1")
    for arch, crate in archs(ctx):
        gens = [k for k in method_keys(crate, r"high::rsa::SigningKey$") if "SigningKey" in ret_ty(crate, k)["s"] and any("KeySize" in a["s"] for a in arg_tys(crate, k))]
        ctx.floor("RSA key generation functions (%s)" % arch, len(gens), 1)
        for k in gens:
            ks = [p for p in crate.adts if p.endswith("::KeySize")][0]
            vs = crate.adts[ks]["variants"]
            ctx.floor("RSA key sizes (%s)" % arch, len(vs), 5)
            low = []
            for b, f in sorted(crate.fns.items()):
                if f.get("local") and f.get("body") and "mid::rsa_priv" in f["path"] and "::tests::" not in f["path"] and any(re.search(r"PosInt.*::mont_exp", c) for c in call_paths(f)) and any(re.search(r"PosInt.*::mont_sqr", c) for c in call_paths(f)):
                    guarded(ctx, b + "/" + arch, mr_base, arch, crate, b, low)
            for i, v in enumerate(vs):
                m = re.search(r"(\d+)$", v["name"])
                guarded(ctx, "%s(%s)/%s" % (k, v["name"], arch), rsa_generate, arch, crate, k, agg(ks, i), int(m.group(1)), low)


def base_width(E, b, P, nb, fills):
    """b is from_bytes of a whole random fill as wide as the candidate P (nb bytes)"""
    while b.op == "prj" and b.a[1][0] in "df":
        b = b.a[0]
    if b.op != "call" or not re.search(r"::from_bytes$", b.a[0]):
        return False
    src = strip_at(b.a[2][0])
    for f in fills:
        if not any(isinstance(x, T) and x.op == "out" and x.a[0] is f for x in dep_set(E, src)):
            continue
        for x in f.a[2]:
            y = strip_at(x)
            if y.op == "rep":
                n = y.a[1] if isinstance(y.a[1], T) else I(y.a[1])
                whole = n is I(nb) or any(isinstance(z, T) and z.op == "call" and re.search(r"::len_(bits|bytes)$", z.a[0]) and strip_at(z.a[2][0]) is P for z in [n] + (list(n.a[2]) if n.op == "call" and re.search("div_ceil", n.a[0]) and n.a[2][1] is I(8) else list(n.a)))
                whole = whole and (n.op != "call" or re.search(r"div_ceil$|::len_bytes$", n.a[0]))
                # the bytes converted are the bytes filled
                if whole and (src.op == "out" or src.op == "prj" and src.a[1][0] == "r" and src.a[1][1] is I(0) and src.a[1][2] is n):
                    return True
    return False


def bounded_below(E, t, v, bases):
    """on the joined end state: some fact that can only come from comparing a base's bit length with 1 (or the base with one)"""
    if not isint(v):
        return False
    sides = [leaves(E, x) for x in t.a if isinstance(x, T)] if t.op in ("lt", "eq") else []
    on_b = lambda x: x.op == "call" and re.search(r"::len_bits$", x.a[0]) and any(y in bases for y in leaves(E, strip_at(x.a[2][0])))
    if t.op == "lt" and v.a[0] == 1:
        return I(1) in sides[0] and any(on_b(x) for x in sides[1])
    if t.op == "lt" and v.a[0] == 0:
        return any(on_b(x) for x in sides[0]) and I(2) in sides[1]
    if t.op == "call" and re.search(r"::less_than$", t.a[0]) and v.a[0] == 1:
        return any(y in bases for y in leaves(E, strip_at(t.a[2][1])))
    return False


def excludes(t, v, b, k):
    """the fact t = v cannot hold when the integer b is k (0 or 1)"""
    def ev(x):
        if isint(x):
            return x.a[0]
        if x.op == "call":
            on = x.a[2] and strip_at(x.a[2][0]) is b
            if on and re.search(r"::len_bits$", x.a[0]):
                return k
            if on and re.search(r"::len_bytes$", x.a[0]):
                return k
            if on and re.search(r"::is_zero$", x.a[0]):
                return int(k == 0)
            if on and re.search(r"::is_even$", x.a[0]):
                return int(k == 0)
            if re.search(r"::(equals|less_than)$", x.a[0]) and len(x.a[2]) == 2:
                p, q = (val(y) for y in x.a[2])
                if p is not None and q is not None:
                    return int(p == q if x.a[0].endswith("equals") else p < q)
            return None
        if x.op == "lt" or x.op == "eq":
            p, q = ev(x.a[0]), ev(x.a[1])
            return None if p is None or q is None else int(p < q if x.op == "lt" else p == q)
        return None

    def val(y):
        y = strip_at(y)
        if y is b:
            return k
        if y.op == "call" and re.search(r"::word$", y.a[0]) and isint(y.a[2][0]):
            return y.a[2][0].a[0]
        if y.op == "call" and re.search(r"::(one|fixed_one)$", y.a[0]):
            return 1
        if y.op == "call" and re.search(r"::zero$", y.a[0]):
            return 0
        return None
    r = ev(t)
    return r is not None and isint(v) and r != v.a[0]


def rsa_generate(ctx, arch, crate, key, size, bits, low_base=()):
    E = ctx.engine(crate)
    again = watch_retries(E)
    outs, av = E.entry(key, args=[size])
    ctx.done(E)
    ctx.ob("rsa-generate", "%s(%d)/%s retries" % (key, bits, arch), not again, "generation goes on although the random source is not known to have succeeded: %s" % (show(again[0], 3) if again else ""), ctx.locate(crate, key))
    where = ctx.locate(crate, key)
    site = "%s(%d)/%s" % (key, bits, arch)
    oks = [o for o in outs if may_ok(o)]
    ctx.ob("rsa-generate", site + " outcomes", oks and all(is_ok(o) or is_err(o) for o in outs), "no recognisable outcome", where)
    nb = bits // 16
    for o in oks:
        ctx.count("generation paths")
        fills = {t for t in rng_ok(E, o)}
        cand = []
        for t, v in o.st.facts.items():
            if t.op == "disc" and v is I(0) and t.a[0].op == "call" and re.search(r"::from_bytes$", t.a[0].a[0]):
                src = strip_at(t.a[0].a[2][0])
                fs = [f for f in fills if any(x.op == "out" and x.a[0] is f for x in dep_set(E, src) if isinstance(x, T))]
                if fs:
                    cand.append((mk("prj", mk("prj", t.a[0], ("d", 0)), ("f", 0)), src, fs))
        primes = []
        for P, src, fs in cand:
            cp = [t for t in pos_int_calls(o, r"::is_coprime$") if strip_at(t.a[2][0]) is P or strip_at(t.a[2][1]) is P]
            if cp:
                primes.append((P, src, fs, cp))
        ctx.ob("rsa-generate", site + " two primes", len(primes) == 2, "a path to Ok has %d primes from successful RNG fills that passed trial division (2 needed)" % len(primes), where)
        for n, (P, src, fs, cp) in enumerate(primes):
            s = "%s prime %d" % (site, n + 1)
            lo = layout_syms(src)
            ctx.ob("rsa-generate", s + " width", lo is not None and len(lo) == nb, "the prime is not built from exactly %d bytes" % nb, where)
            if lo is not None and len(lo) == nb:
                ctx.ob("rsa-generate", s + " random", all(b[0] == "rng" and b[1] in fs and b[2] == i for i, b in enumerate(lo)), "some byte of the candidate does not come from the RNG", where)
                ctx.ob("rsa-generate", s + " top bits", lo[0][3] == 0xc0, "the bits of the first byte forced to one are not exactly the top two (0x%02x)" % lo[0][3], where)
                ctx.ob("rsa-generate", s + " odd", lo[-1][3] == 1, "the bits of the last byte forced to one are not exactly the lowest (0x%02x)" % lo[-1][3], where)
                ctx.ob("rsa-generate", s + " free bits", all(b[3] == 0 for b in lo[1:-1]), "some bits in the middle of the candidate are forced to one", where)
            prod = product_const(E, crate, cp[0].a[2][1] if strip_at(cp[0].a[2][0]) is P else cp[0].a[2][0])
            ctx.ob("rsa-generate", s + " trial division", prod is not None and prod % 3 == 0 and prod % 5 == 0 and small_primes_ok(prod), "the trial division constant is not a product of distinct small odd primes (or not recognised)", where)
            mr = [t for t in pos_int_calls(o, r"::equals$") if P in dep_set(E, t.a[2][0]) and P in dep_set(E, t.a[2][1]) and uses_rng_other(E, t, fs, fills)]
            for t in mr:
                x, y = strip_at(t.a[2][0]), strip_at(t.a[2][1])
                if not has_call(E, x, r"::mont_exp$"):
                    x, y = y, x
                minus = has_call(E, y, r"PosInt<.*>::sub$|PosInt::sub$|::sub$") and P in dep_set(E, y)
                if has_call(E, x, r"::mont_sqr$") and not any(z.op == "call" and re.search(r"::mont_exp$", z.a[0]) for z in leaves(E, x)):
                    ctx.ob("miller-rabin", s + " square", minus, "a later square equal to something other than w-1 counts as a pass", where)
                if not has_call(E, y, r"::mont_exp$"):
                    for e in [z for z in dep_set(E, x) if isinstance(z, T) and z.op == "call" and re.search(r"::mont_exp$", z.a[0])]:
                        ctx.ob("miller-rabin", s + " exponent", any(has_call(E, q, r"::sub$") and has_call(E, q, r"::shift_right") and P in dep_set(E, q) for q in e.a[2]), "the base is not raised to the odd part of w-1", where)
            ctx.ob("rsa-generate", s + " miller-rabin", mr, "a path to Ok does not require the candidate to pass Miller-Rabin on a random base", where)
            lt = [t for t in pos_int_calls(o, r"::less_than$") if P in dep_set(E, t.a[2][1]) and uses_rng_other(E, t, fs, fills)]
            ctx.ob("rsa-generate", s + " base range", lt, "the Miller-Rabin base is not required to be below w-1", where)
            bases = {strip_at(b) for t in lt for b in leaves(E, strip_at(t.a[2][0]))}
            ctx.ob("rsa-generate", s + " base width", bases and all(base_width(E, b, P, nb, fills) for b in bases), "the Miller-Rabin base is not a random integer of the whole width of w", where)
            if not low_base:
                ctx.ob("rsa-generate", s + " base above one", any(bounded_below(E, t, v, bases) for t, v in o.st.facts.items()), "the Miller-Rabin base is not required to be above 1", where)
        if len(primes) == 2:
            P, Q = primes[0][0], primes[1][0]
            ne = [t for t in pos_int_calls(o, r"::equals$", 0) if {strip_at(t.a[2][0]), strip_at(t.a[2][1])} == {P, Q}]
            ctx.ob("rsa-generate", site + " distinct", ne, "a path to Ok does not require the two primes to differ", where)
            v = E.view(o.st, o.ret)
            priv = [t for t in subterms(v) if t.op == "agg" and str(t.a[0]).endswith("::RsaPrivateKey")]
            ok = False
            if priv:
                adt = crate.adts[priv[0].a[0]]["variants"][0]["fields"]
                names = [f["name"] for f in adt]
                f = dict(zip(names, priv[0].a[2:]))
                pl = {unfrom(x) for x in leaves(E, inner(f["p"]))}
                ql = {unfrom(x) for x in leaves(E, inner(f["q"]))}
                ok = pl | ql == {P, Q} and (len(pl) == 2 or pl != ql) and (len(pl) == 1 or f["p"] is not f["q"])
                for nm in ("d", "dp", "dq", "iqmp"):
                    if nm in f:
                        ctx.ob("rsa-generate", "%s %s" % (site, nm), all({P, Q} <= dep_set(E, x) for x in leaves(E, inner(f[nm]))), "%s is not computed from both primes" % nm, where)
                pub = f.get("public")
                if ok and pub is not None:
                    pn = dict(zip([x["name"] for x in crate.adts[pub.a[0]]["variants"][0]["fields"]], pub.a[2:]))
                    n_ok = all(x.op == "call" and re.search(r"::mul$", x.a[0]) and {P, Q} <= dep_set(E, x) for x in [unfrom(y) for y in leaves(E, inner(pn["n"]))])
                    ctx.ob("rsa-generate", site + " modulus", n_ok, "the modulus is not the product of the two primes", where)
                    ctx.ob("rsa-generate", site + " exponent", pn["e"] is I(65537), "the public exponent is not 65537", where)
            ctx.ob("rsa-generate", site + " components", ok, "the returned key does not hold exactly the two checked primes", where)


def has_call(E, t, rx):
    return any(isinstance(x, T) and x.op == "call" and re.search(rx, x.a[0]) for x in dep_set(E, t))


def unfrom(t):
    while t.op == "call" and re.search(r"From<.*>>::from$|::clone$|Into<.*>>::into$", t.a[0]):
        t = strip_at(t.a[2][0])
    return t


def inner(t):
    while t.op == "agg" and len(t.a) == 3:
        t = t.a[2]
    return t


def rng_ok(E, o):
    return [t.a[0] for t, v in o.st.facts.items() if t.op == "disc" and v is I(0) and t.a[0].op == "call" and re.search(r"(::|^)fill$", t.a[0].a[0])]


def uses_rng_other(E, t, mine, fills):
    ds = dep_set(E, t)
    return any(x.op == "out" and x.a[0] in fills and x.a[0] not in mine for x in ds if isinstance(x, T))


def layout_syms(t):
    """byte list of a candidate buffer: ('rng', fill call, index, bits forced to one)"""
    if t.op == "prj" and t.a[1][0] == "r":
        b = layout_syms(t.a[0])
        lo, hi = t.a[1][1], t.a[1][2]
        return b[lo.a[0]:hi.a[0]] if b is not None and isint(lo) and isint(hi) else None
    if t.op == "rep" and isint(t.a[1] if isinstance(t.a[1], T) else I(t.a[1])):
        n = t.a[1].a[0] if isinstance(t.a[1], T) else t.a[1]
        return [("const", None, i, t.a[0].a[0] if isint(t.a[0]) else 0) for i in range(n)]
    if t.op == "out":
        n = None
        for x in t.a[0].a[2]:
            y = strip_at(x)
            if y.op == "rep":
                n = y.a[1].a[0] if isinstance(y.a[1], T) and isint(y.a[1]) else (y.a[1] if not isinstance(y.a[1], T) else None)
        return None if n is None else [("rng", t.a[0], i, 0) for i in range(n)]
    if t.op == "upd":
        b = layout_syms(t.a[0])
        if b is None:
            return None
        e, v = t.a[1], t.a[2]
        if e[0] == "r" and isint(e[1]) and isint(e[2]):
            w = layout_syms(v)
            if w is None or len(w) != e[2].a[0] - e[1].a[0]:
                return None
            b[e[1].a[0]:e[2].a[0]] = w
            return b
        if e[0] == "i" and isint(e[1]):
            i = e[1].a[0]
            s = byte_sym(v)
            if s is None:
                return None
            b[i] = s
            return b
    return None


def byte_sym(v):
    if isint(v):
        return ("const", None, 0, v.a[0])
    if v.op == "prj" and v.a[1][0] == "i" and isint(v.a[1][1]):
        b = layout_syms(v.a[0])
        return b[v.a[1][1].a[0]] if b is not None and v.a[1][1].a[0] < len(b) else None
    if v.op == "bin" and v.a[0] == "BitOr" and isint(v.a[2]):
        s = byte_sym(v.a[1])
        return None if s is None else (s[0], s[1], s[2], s[3] | v.a[2].a[0])
    if v.op == "bin" and v.a[0] == "BitAnd" and isint(v.a[2]):
        s = byte_sym(v.a[1])
        return None if s is None or v.a[2].a[0] != 0xff else s
    return None


def product_const(E, crate, t):
    for x in subterms(t):
        if isinstance(x, T) and x.op == "krel":
            d = x.a[2] if len(x.a) > 2 else ""
            c = crate.consts.get(d)
            if c:
                h = const_ref_bytes(c)
                if h:
                    return int.from_bytes(h, "big")
        if isinstance(x, T) and x.op == "bytes" and len(x.a[0]) > 8:
            return int.from_bytes(x.a[0], "big")
        if isinstance(x, T) and x.op == "agg" and x.a[0] == "array" and len(x.a) > 10 and all(isint(y) and 0 <= y.a[0] < 256 for y in x.a[2:]):
            return int.from_bytes(bytes(y.a[0] for y in x.a[2:]), "big")
    return None


def const_ref_bytes(c):
    for b in (c.get("body") or {}).get("blocks", []):
        for s in b["s"]:
            if s[0] == "=":
                st = [s[2]]
                while st:
                    y = st.pop()
                    if isinstance(y, dict) and "refbytes" in y and len(y["refbytes"]) // 2 == y.get("reflen"):
                        return bytes.fromhex(y["refbytes"])
                    if isinstance(y, (list, tuple)):
                        st.extend(y)
    return None


def small_primes_ok(n):
    """n is a product of distinct odd primes starting at 3 (squarefree, every factor below 2000)"""
    k, p, first_missing = n, 3, None
    got = []
    while p < 2000 and k > 1:
        if all(p % q for q in range(3, int(p ** 0.5) + 1, 2)):
            if k % p == 0:
                k //= p
                got.append(p)
                if k % p == 0:
                    return False
        p += 2
    return k == 1 and len(got) >= 30


def ctor_fields(ctx, crate, adt):
    """for each function returning the ADT: list of (engine, field value)"""
    r = []
    for k, f in sorted(crate.fns.items()):
        if f.get("local") and f.get("body") and f.get("self_adt") == adt and crate.types[f["body"]["locals"][0][0]].get("path") == adt:
            E = ctx.engine(crate)
            outs, av = E.entry(k)
            for o in outs:
                if o.ret.op == "agg" and o.ret.a[0] == adt:
                    r.append([(E, x) for x in o.ret.a[2:]])
    return r


def mr_base(ctx, arch, crate, key, low):
    E = ctx.engine(crate, K=64)
    outs, av = E.entry(key)
    ctx.done(E)
    site = "%s/%s" % (key, arch)
    where = ctx.locate(crate, key)

    def kind(t):
        """start: the first power; square: a later square; one / minus1: the Montgomery forms of 1 and w-1"""
        t = strip_at(t)
        ds = [x for x in leaves(E, t)]
        if any(x.op == "call" and re.search(r"::mont_sqr$", x.a[0]) for x in ds):
            return "square"
        if all(x.op == "call" and re.search(r"::mont_exp$", x.a[0]) for x in ds):
            return "start"
        return "const"
    passing, rows = set(), []
    for o in outs:
        eqs = []
        for t in pos_int_calls(o, r"::equals$"):
            for x, y in both([(t.a[2][0], t.a[2][1])]):
                if kind(x) in ("start", "square") and kind(y) == "const":
                    eqs.append((kind(x), strip_at(y)))
        rows.append((o, eqs))
        if any(k == "start" for k, _ in eqs):
            passing.add(show(o.ret, 2))
    firsts = [c for o, e in rows for k, c in e if k == "start"]
    if len(set(firsts)) != 2:
        return  # not a base check written as a function of its own
    # the constants are fields of the parameters: what does their constructor put there?
    adt = crate.fns[key].get("self_adt")
    cf = ctor_fields(ctx, crate, adt) if adt else None
    def is_minus(c):
        b, pr = base_of(c)
        if cf and pr and pr[0][0] == "f":
            vs = [x[pr[0][1]] for x in cf]
            return all(has_call(E2, x, r"::sub$") for E2, x in vs)
        return has_call(E, c, r"::sub$")
    sq = [c for o, e in rows for k, c in e if k == "square" and show(o.ret, 2) in passing]
    ctx.ob("miller-rabin", site + " squares", sq and all(is_minus(c) for c in sq), "a later square equal to something other than w-1 counts as a pass", where)
    # a base of 0 or 1: rejected here, or (None) nothing here looks at it
    bs = {strip_at(x) for o in outs for t in o.st.ev if isinstance(t, T) and t.op == "call" and re.search(r"::to_montgomery$", t.a[0]) for x in t.a[2][:1] if av_root(av[-1]) in subterms(x)}
    if len(bs) == 1 and any(b in bs and re.search(r"::(len_bits|is_zero|len_bytes)$", t.a[0]) for o in outs for t in o.st.ev if isinstance(t, T) and t.op == "call" and t.a[2] for b in [strip_at(t.a[2][0])]):
        low.append(key)
        b = bs.pop()
        for o, e in rows:
            if show(o.ret, 2) in passing:
                ctx.ob("miller-rabin", site + " base above one", all(any(excludes(t, v, b, k) for t, v in o.st.facts.items()) for k in (0, 1)), "a base of 0 or 1 can count as a pass", where)
    for o, e in rows:
        if show(o.ret, 2) in passing:
            ctx.ob("miller-rabin", site + " pass", e, "a base is counted as a pass without any of the required equalities", where)
            ctx.count("Miller-Rabin passing paths")
