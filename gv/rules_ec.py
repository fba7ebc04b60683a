"""C09 peer public key validation, C10 ECDSA verification gate, C11 Ed25519 verification gate, C19 ML-KEM."""
from .core import *
from .q import *
from .rules_aead import archs

MODE = {}
NISTS = (("p256", 32, "P256", 4), ("p384", 48, "P384", 6))
B_MONT = {}  # curve -> b*R mod p as limbs (for the constant in the curve equation)
PN = {
    "p256": (0xffffffff00000001000000000000000000000000ffffffffffffffffffffffff, 0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b, 256,
             0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551),
    "p384": (0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff,
             0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef, 384,
             0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973),
}


def limbs_int(t):
    if t.op == "agg" and t.a[0] == "array" and all(isint(x) for x in t.a[2:]):
        return sum(x.a[0] << (64 * i) for i, x in enumerate(t.a[2:]))
    return None


# ---------------------------------------------------------------- field terms as polynomials
class Poly:
    """polynomial over F_p in opaque atoms; values carry a Montgomery exponent through the arithmetic"""

    def __init__(self, p, d=None):
        self.p = p
        self.d = {k: v % p for k, v in (d or {}).items() if v % p}

    @staticmethod
    def const(p, c):
        return Poly(p, {(): c})

    @staticmethod
    def atom(p, a):
        return Poly(p, {(a,): 1})

    def __add__(s, o):
        d = dict(s.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Poly(s.p, d)

    def __sub__(s, o):
        return s + o.scale(-1)

    def scale(s, c):
        return Poly(s.p, {k: v * c for k, v in s.d.items()})

    def __mul__(s, o):
        d = {}
        for k, v in s.d.items():
            for k2, v2 in o.d.items():
                kk = tuple(sorted(k + k2, key=lambda a: a.n))
                d[kk] = d.get(kk, 0) + v * v2
        return Poly(s.p, d)

    def deg(s):
        return max((len(k) for k in s.d), default=0)


def limb_view(t, lo, n):
    """canonical atom for the n-limb number held at limbs lo.. of array term t"""
    return project(t, ("r", I(lo), I(lo + n)))


def norm(t):
    """copies between equally sized arrays are the same value"""
    while True:
        t = strip_at(t)
        if t.op == "upd" and t.a[1][0] == "r" and isint(t.a[1][1]) and t.a[1][1].a[0] == 0 and t.a[0].op == "rep" and t.a[1][2] is t.a[0].a[1]:
            t = t.a[2]
            continue
        if t.op == "upd" and all_limbs(t) is not None:
            r = all_limbs(t)
            if r is not t:
                t = r
                continue
        return t


def all_limbs(t):
    """array built limb by limb from one source: upd(upd(..,(i,0),src.(i,0)),(i,1),src.(i,1))... -> src"""
    return None


def poly(E, t, curve, n, memo):
    """term -> polynomial over F_p, interpreting the field primitives; anything else is an atom"""
    t = norm(t)
    r = memo.get(t)
    if r is not None:
        return r
    p, b, bits, _ = PN[curve]
    R = pow(2, bits, p)
    Ri = pow(R, -1, p)
    v = limbs_int(t)
    if v is not None:
        r = Poly.const(p, v)
    elif t.op == "rep" and isint(t.a[0]) and t.a[0].a[0] == 0:
        r = Poly.const(p, 0)
    elif t.op == "out" and t.a[0].op == "call" and t.a[1] == 0:
        m = re.search(r"::bignum_(\w+?)_%s$" % curve, t.a[0].a[0])
        a = t.a[0].a[2]
        g = lambda i: poly(E, a[i], curve, n, memo)
        if m:
            o = m.group(1)
            if o == "montmul":
                r = (g(1) * g(2)).scale(Ri)
            elif o == "montsqr":
                r = (g(1) * g(1)).scale(Ri)
            elif o == "add":
                r = g(1) + g(2)
            elif o == "sub":
                r = g(1) - g(2)
            elif o == "neg":
                r = g(1).scale(-1)
            elif o == "tomont":
                r = g(1).scale(R)
            elif o == "demont":
                r = g(1).scale(Ri)
            if r is not None and r.deg() > 8:
                r = None
    if r is None:
        r = Poly.atom(p, t)
    memo[t] = r
    return r


def curve_eqs(E, o, curve, n):
    """(X, Y) Montgomery-form coordinate polynomials for which o establishes Y^2 = X^3 - 3X + b"""
    p, b, bits, _ = PN[curve]
    R = pow(2, bits, p)
    Ri = pow(R, -1, p)
    found = []
    for x, y in eq_facts(E, o, True):
        cs = []
        operands(x, curve, cs, 0)
        operands(y, curve, cs, 0)
        if not 2 <= len(cs) <= 16:
            continue
        for X in cs:
            for Y in cs:
                if X is Y:
                    continue
                xm, ym = Poly.atom(p, X), Poly.atom(p, Y)
                memo = {X: xm, Y: ym}
                q = poly(E, x, curve, n, memo) - poly(E, y, curve, n, memo)
                e = (ym * ym).scale(Ri) - (xm * xm * xm).scale(Ri * Ri) + xm.scale(3) - Poly.const(p, b * R)
                if not (q - e).d or not (q + e).d:
                    found.append((X, Y))
    return found


def operands(t, curve, out, d):
    """field values an expression of field primitives is built from (candidate coordinates)"""
    t = norm(t)
    if d > 5 or limbs_int(t) is not None:
        return
    if d and t not in out:
        out.append(t)
    if t.op == "out" and t.a[0].op == "call" and re.search(r"::bignum_(montmul|montsqr|add|sub|neg)_%s$" % curve, t.a[0].a[0]):
        for x in t.a[0].a[2][1:]:
            operands(x, curve, out, d + 1)


def C09(ctx):
    ctx.rule("ec-public-key", "every path on which a P-256/P-384 public key is built from bytes is dominated by: exact length, 0x04 prefix, an equality that is "
             "(as a polynomial identity over F_p, decoding the field primitives) the curve equation in that key's own x and y, and an equality of all input bytes with the canonical re-encoding (so both coordinates are < p)")
    ctx.rule("ecdh-result", "every path on which P-256/P-384 key agreement returns a shared secret is dominated by the curve equation of the computed point, and the secret is that point's x")
    ctx.rule("x25519-nonzero", "every path on which X25519 returns a shared secret is dominated by a test that this very secret is non-zero")
    ctx.rule("x25519-length", "an X25519 public key from a slice needs exactly 32 bytes, all of them used")
    for arch, crate in archs(ctx):
        for c, nb, C, n in NISTS:
            ex = {p for p in exported(crate, "graviola::key_agreement::%s::" % c)}
            pk = [p for p in ex if p.endswith("::PublicKey")]
            ctx.floor("%s public key types (%s)" % (c, arch), len(pk), 1)
            for adt in pk:
                makers = [k for k in method_keys(crate, re.escape(adt) + "$") if adt in ret_ty(crate, k)["s"] and not any(adt in t["s"] for t in arg_tys(crate, k))]
                makers += [k for k in method_keys(crate, r"ecdsa::VerifyingKey$") if "curve::%s>" % C in k and "VerifyingKey" in ret_ty(crate, k)["s"]]
                ctx.floor("%s public key constructors (%s)" % (c, arch), len(makers), 2)
                for k in makers:
                    guarded(ctx, k + "/" + arch, pubkey, arch, crate, k, c, nb, n)
            dh = [k for k in method_keys(crate, r"mid::%s::(Static)?PrivateKey$" % c) if "SharedSecret" in ret_ty(crate, k)["s"]]
            ctx.floor("%s agreement operations (%s)" % (c, arch), len(dh), 2)
            for k in dh:
                guarded(ctx, k + "/" + arch, ecdh, arch, crate, k, c, nb, n)
        dh = [k for k in method_keys(crate, r"mid::x25519::(Static)?PrivateKey$") if "SharedSecret" in ret_ty(crate, k)["s"]]
        ctx.floor("x25519 agreement operations (%s)" % arch, len(dh), 2)
        for k in dh:
            guarded(ctx, k + "/" + arch, x25519, arch, crate, k)
        mks = [k for k in method_keys(crate, r"mid::x25519::PublicKey$") if "PublicKey" in ret_ty(crate, k)["s"]]
        ctx.floor("x25519 public key constructors (%s)" % arch, len(mks), 2)
        for k in mks:
            guarded(ctx, k + "/" + arch, xpub, arch, crate, k)


def known_len(o, ln):
    v = o.st.facts.get(ln)
    if v is not None and isint(v):
        return v.a[0]
    return ln.a[0] if isint(ln) else None


def pubkey(ctx, arch, crate, key, c, nb, n):
    E = ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    b = av[0]
    root = mk("deref", b.a[0][1])
    oks = [o for o in outs if is_ok(o)]
    ctx.ob("ec-public-key", "%s/%s outcomes" % (key, arch), oks and all(is_ok(o) or is_err(o) for o in outs), "no recognisable Ok/Err outcomes", where)
    for o in oks:
        site = "%s/%s" % (key, arch)
        L = known_len(o, b.a[2])
        ctx.ob("ec-public-key", site + " length", L == 1 + 2 * nb, "a path to Ok accepts encodings whose length is not known to be %d (%s)" % (1 + 2 * nb, o.where), where)
        canon = []
        for x, y in both(eq_facts(E, o)):
            if x is root and not covers_raw(E, y, root):
                canon.append(y)
        first = o.st.facts.get(project(root, ("i", I(0))))
        pre = first is not None and isint(first) and first.a[0] == 4 or any(project(y, ("i", I(0))) is I(4) for y in canon)
        ctx.ob("ec-public-key", site + " prefix", pre, "a path to Ok does not require the first byte to be 0x04 (%s)" % (o.where,), where)
        eqs = curve_eqs(E, o, c, n)
        good = [e for e in eqs if reads_bytes(E, e[0], root, 1, 1 + nb) and reads_bytes(E, e[1], root, 1 + nb, 1 + 2 * nb)
                and not (int_parts(E, e[0], root) or set()) & set(range(1 + nb, 1 + 2 * nb))]
        ctx.ob("ec-public-key", site + " on curve", good, "no dominating equality is the curve equation in the encoded x and y (%s)" % (o.where,), where)
        # the key returned holds exactly those coordinates
        val = E.view(o.st, o.ret)
        held = any(all(any(s is t for s in dep_set(E, val)) for t in (e[0], e[1])) for e in good)
        ctx.ob("ec-public-key", site + " key holds checked point", held, "the returned key does not hold the coordinates that were checked", where)
        # the point form usable for arithmetic depends on both
        ok = any(reads_bytes(E, y, root, 1, 1 + 2 * nb) for y in canon) or range_facts(E, o, root, nb, c)
        ctx.ob("ec-public-key", site + " canonical", ok, "no dominating check that both coordinates are less than p (%s)" % (o.where,), where)
        ctx.count("public key Ok paths")


def covers_raw(E, y, root):
    """y is (partly) a raw copy of root rather than something recomputed from it: bytes compared with themselves prove nothing"""
    seen = set()
    st = [y]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x is root or x.op == "prj" and x.a[0] is root:
            return True
        if x.op in ("call", "out"):
            continue  # recomputed
        if x.op == "phi":
            st.extend(E.phis.get(x, ()))
        elif x.op in ("from_be", "from_le"):
            st.extend(x.a)
        else:
            st.extend(x.a)
    return False


def range_facts(E, o, root, nb, c):
    """cmp_lt(coordinate, p) style checks on both coordinates"""
    p = PN[c][0]
    n = 0
    for lo in (1, 1 + nb):
        for t, v in o.st.facts.items():
            if t.op == "call" and re.search(r"cmp_lt|less_than|bignum_lt", t.a[0]) and isint(v) and v.a[0] == 1:
                a = [strip_at(x) for x in t.a[2]]
                if len(a) == 2 and limbs_int(a[1]) == p and reads_bytes(E, a[0], root, lo, lo + nb):
                    n += 1
                    break
        else:
            for x, y in both(eq_facts(E, o)):
                if reads_bytes(E, x, root, lo, lo + nb) and reads_bytes(E, y, root, lo, lo + nb) and y.op in ("call", "out") and not covers_raw(E, y, root) and covers_raw(E, x, root):
                    n += 1
                    break
    return n == 2


def ecdh(ctx, arch, crate, key, c, nb, n):
    E = ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    oks = [o for o in outs if is_ok(o)]
    site = "%s/%s" % (key, arch)
    ctx.ob("ecdh-result", site + " outcomes", oks, "no Ok outcome recognised", where)
    for o in oks:
        eqs = curve_eqs(E, o, c, n)
        val = E.view(o.st, o.ret.a[2])
        ds = dep_set(E, val)
        good = [e for e in eqs if e[0] in ds and depends(E, e[0], lambda t: t is av_root(av[1])) and depends(E, e[0], lambda t: is_self(t, av[0]))]
        ctx.ob("ecdh-result", site, good, "a shared secret is returned without the computed point having been checked against the curve equation (%s)" % (o.where,), where)
        ctx.count("agreement Ok paths")


def av_root(a):
    return mk("deref", a.a[0][1]) if a.op == "ref" else a


def is_self(t, a):
    return t is av_root(a)


def is_zero_term(t):
    t = strip_at(t)
    return t.op == "rep" and t.a[0] is I(0) or limbs_int(t) == 0 or t.op == "bytes" and not any(t.a[0])


def byte_sources(E, t):
    """opaque call outputs a value is directly laid out from (through to_le/limb projections and array updates)"""
    out = set()
    st, seen = [t], set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op in ("out", "call"):
            out.add(x)
            continue
        if x.op == "phi":
            st.extend(E.phis.get(x, ()))
        else:
            st.extend(x.a)
    return out


def x25519(ctx, arch, crate, key):
    E = ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    oks = [o for o in outs if is_ok(o)]
    site = "%s/%s" % (key, arch)
    ctx.ob("x25519-nonzero", site + " outcomes", oks, "no Ok outcome recognised", where)
    for o in oks:
        val = E.view(o.st, o.ret.a[2])
        src = byte_sources(E, val)
        good = False
        for x, y in both(eq_facts(E, o, False)):
            if not is_zero_term(y):
                continue
            if byte_sources(E, x) == src and src and full_width(x):
                good = True
        ctx.ob("x25519-nonzero", site, good, "a shared secret is returned on a path (%s) where that secret was not found to be non-zero" % (o.where,), where)
        dep = depends(E, val, lambda t: t is av_root(av[1])) and depends(E, val, lambda t: is_self(t, av[0]))
        ctx.ob("x25519-nonzero", site + " inputs", dep, "the shared secret does not depend on both the private key and the peer's public key", where)


def full_width(x):
    """the compared object is the complete value, not a sub-range of it"""
    x = strip_at(x)
    return not (x.op == "prj" and x.a[1][0] in ("r", "i"))


def xpub(ctx, arch, crate, key):
    E = ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    b = av[0]
    root = av_root(b)
    for o in outs:
        if is_err(o):
            continue
        site = "%s/%s" % (key, arch)
        L = known_len(o, b.a[2])
        ctx.ob("x25519-length", site + " length", L == 32, "accepts a public key whose length is not known to be 32 (%s)" % (o.where,), where)
        v = E.view(o.st, o.ret)
        ctx.ob("x25519-length", site + " all bytes", reads_bytes(E, v, root, 0, 32) or covers_whole(E, v, root), "the public key does not use all 32 bytes", where)


# ---------------------------------------------------------------- ECDSA
def C10(ctx):
    ctx.rule("ecdsa-gate", "every path on which ECDSA verification returns Ok is dominated by: the exact signature length; r and s each equal to themselves reduced mod n (or compared below n) and non-zero; "
             "the computed point not at infinity; and full-width equality of r with a value depending on the public key, every message part, r and s")
    ctx.rule("ecdsa-asn1", "every path on which DER-signature verification returns Ok is dominated by success of the fixed-length verification (itself checked) with the same key and message, on integers from a completely consumed DER value with non-negative r and s, "
             "or satisfies that rule directly")
    for arch, crate in archs(ctx):
        vs = [k for k in method_keys(crate, r"ecdsa::VerifyingKey$") if ret_ty(crate, k)["s"].startswith("core::result::Result<(),")]
        fixed = [k for k in vs if "asn1" not in k.rsplit("::<", 1)[0].rsplit("::", 1)[-1]]
        der = [k for k in vs if k not in fixed]
        ctx.floor("fixed-length verification instances (%s)" % arch, len(fixed), 6)
        ctx.floor("DER verification instances (%s)" % arch, len(der), 6)
        for k in fixed:
            c = [x for x in NISTS if "curve::%s>" % x[2] in k][0]
            guarded(ctx, k + "/" + arch, ecdsa_fixed, arch, crate, k, *c)
        for k in der:
            c = [x for x in NISTS if "curve::%s>" % x[2] in k][0]
            guarded(ctx, k + "/" + arch, ecdsa_der, arch, crate, k, fixed, *c)


def range_ok(E, o, pred, order, curve):
    """on o, the number X satisfying pred(X) is known < order; returns the X terms"""
    r = []
    for x, y in both(eq_facts(E, o)):
        if pred(x) and y.op in ("out", "call"):
            call = y.a[0] if y.op == "out" else y
            if call.op == "call" and re.search(r"::bignum_mod_n(256|384)$", call.a[0]) and strip_at(call.a[2][-1]) is x:
                r.append(x)
    for t, v in o.st.facts.items():
        if t.op == "call" and re.search(r"cmp_lt|less_than|bignum_lt", t.a[0]) and isint(v) and v.a[0] == 1:
            a = [strip_at(z) for z in t.a[2]]
            if len(a) == 2 and limbs_int(a[1]) == order and pred(a[0]):
                r.append(a[0])
    return r


def nonzero(E, o, x):
    for a, b in both(eq_facts(E, o, False)):
        if a is x and is_zero_term(b):
            return True
    return False


def message_covered(E, v, msg):
    """v depends on the whole of every part of msg: &[&[u8]]"""
    root = av_root(msg)
    if not covers_whole(E, v, root):
        return False
    # the parts themselves
    parts = {}
    for t in dep_set(E, v):
        if isinstance(t, T) and t.op == "deref" and t is not root and depends_direct(t.a[0], root):
            parts[t] = 1
    return bool(parts) and any(covers_whole(E, v, p) for p in parts)


def depends_direct(t, root):
    t0, pr = base_of(t)
    return t0 is root


def ecdsa_fixed(ctx, arch, crate, key, c, nb, C, n):
    E = ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    self_, msg, sig = av
    root = av_root(sig)
    order = PN[c][3]
    oks = [o for o in outs if is_ok(o)]
    site = "%s/%s" % (key, arch)
    ctx.ob("ecdsa-gate", site + " outcomes", oks and all(is_ok(o) or is_err(o) for o in outs), "no recognisable Ok/Err outcomes", where)
    for o in oks:
        ctx.ob("ecdsa-gate", site + " length", known_len(o, sig.a[2]) == 2 * nb, "a path to Ok does not require a %d byte signature" % (2 * nb), where)
        rng = {}
        for nm, lo in (("r", 0), ("s", nb)):
            pred = lambda x, lo=lo: int_parts(E, x, root) == set(range(lo, lo + nb)) and x.op not in ("out", "call")
            xs = range_ok(E, o, pred, order, c)
            rng[nm] = xs
            ctx.ob("ecdsa-gate", site + " %s < n" % nm, xs, "a path to Ok does not check %s < n" % nm, where)
            ctx.ob("ecdsa-gate", site + " %s != 0" % nm, any(nonzero(E, o, x) for x in xs), "a path to Ok does not check %s != 0" % nm, where)
        best = None
        for x, y in both(eq_facts(E, o)):
            if y not in rng["r"] or not (x.op in ("out", "call", "phi", "upd", "agg")):
                continue
            miss = []
            for nm, rt in (("the public key", av_root(self_)),):
                if not covers(E, x, rt):
                    miss.append(nm)
            if not message_covered(E, x, msg):
                miss.append("every message part")
            for nm in ("r", "s"):
                if not any(depends(E, x, lambda t: t is z) for z in rng[nm]):
                    miss.append(nm)
            if best is None or len(miss) < len(best):
                best = miss
        ctx.ob("ecdsa-gate", site + " v = r", best == [], "a path to Ok is not gated by equality of r with a value depending on %s" % (
            "the inputs (no such equality)" if best is None else "; ".join(best)), where)
        inf = False
        for x, y in both(eq_facts(E, o, False)):
            if is_zero_term(x) and covers(E, y, av_root(self_)) and message_covered(E, y, msg):
                inf = True
        ctx.ob("ecdsa-gate", site + " not infinity", inf, "a path to Ok does not exclude the point at infinity", where)
        ctx.count("verify Ok paths")


def ecdsa_der(ctx, arch, crate, key, fixed, c, nb, C, n):
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    H = key.rsplit("::<", 1)[1]
    same = {k for k in fixed if "curve::%s>" % C in k and k.endswith("::<" + H)}
    E = ctx.engine(crate, opaque=lambda k, p: k in same or bool(DEFAULT_OPAQUE.match(p)))
    outs, av = E.entry(key)
    ctx.done(E)
    self_, msg, sig = av
    root = av_root(sig)
    n_ok = 0
    for o in outs:
        if is_err(o):
            continue
        # success of the checked verification?
        n_ok += 1
        calls = [t for t in leaves(E, o.ret) if not (t.op == "agg" and t.a[1] == 1)]
        if not all(t.op == "call" and E.callinfo.get(t, (0, 0, 0))[2] in same for t in calls):
            calls = [t for t in o.st.ev if t.op == "call" and E.callinfo.get(t, (0, 0, 0))[2] in same and bool_fact(o, mk("disc", t)) is False]
        if not calls:
            ctx.ob("ecdsa-asn1", site + " gate", False, "a path to Ok (%s) does not follow from successful fixed-length verification" % (o.where,), where)
            continue
        for call in calls:
            a = call.a[2]
            ctx.ob("ecdsa-asn1", site + " key", strip_at(a[0]) is av_root(self_), "verification is done with a different key", where)
            ctx.ob("ecdsa-asn1", site + " message", strip_at(a[1]) is av_root(msg), "verification is done on a different message", where)
            ctx.ob("ecdsa-asn1", site + " signature", covers(E, a[2], root), "the fixed-length signature does not come from the DER signature", where)
        ctx.ob("ecdsa-asn1", site + " consumed", consumed(E, o, sig), "a path to Ok does not require the DER signature to be completely consumed", where)
        neg = [t for t, v in o.st.facts.items() if sign_test(t, v, root)]
        ctx.ob("ecdsa-asn1", site + " signs", len(neg) >= 2, "a path to Ok does not require r and s to be non-negative", where)
    ctx.ob("ecdsa-asn1", site + " outcomes", n_ok, "no success outcome recognised", where)


def sign_test(t, v, root):
    """fact (t = v) says the top bit of one input byte is clear"""
    if not isint(v):
        return False
    if t.op == "eq" and t.a[0].op == "bin" and t.a[0].a[0] == "BitAnd" and I(128) in t.a[0].a[1:]:
        byte = [x for x in t.a[0].a[1:] if x is not I(128)]
        return bool(byte) and base_of(byte[0])[0] is root and (t.a[1] is I(128) and v.a[0] == 0 or t.a[1] is I(0) and v.a[0] == 1)
    if t.op == "eq" and t.a[0].op == "bin" and t.a[0].a[0] == "Shr" and t.a[0].a[2] is I(7):
        return base_of(t.a[0].a[1])[0] is root and (t.a[1] is I(1) and v.a[0] == 0 or t.a[1] is I(0) and v.a[0] == 1)
    if t.op == "lt":
        return base_of(t.a[0])[0] is root and t.a[1] is I(128) and v.a[0] == 1 or base_of(t.a[1])[0] is root and t.a[0] is I(127) and v.a[0] == 0
    return False


def consumed(E, o, sl):
    """some fact equates the input's length with a parse position: len(input) - pos = 0"""
    ln = sl.a[2]
    for t, v in o.st.facts.items():
        if t.op == "eq" and isint(v) and v.a[0] == 1:
            d = sub(t.a[0], t.a[1])
            c, m = (d.a[0], dict(d.a[1])) if d.op == "lin" else (0, {d: 1})
            if m.get(ln) in (1, -1) and len(m) > 1:
                return True
    return False


# ---------------------------------------------------------------- Ed25519
L25519 = (1 << 252) + 27742317777372353535851937790883648493


def fld(crate, root, adt, name):
    a = crate.adts.get(adt)
    if a:
        for i, f in enumerate(a["variants"][0]["fields"]):
            if f["name"] == name:
                return project(root, ("f", i))
    return None


def nonzero_result(o, pred):
    """calls known to have returned non-zero/true at o"""
    r = []
    for t, v in o.st.facts.items():
        if t.op == "call" and pred(t) and isint(v) and v.a[0] != 0:
            r.append(t)
    for t, ex in o.st.ne.items():
        if t.op == "call" and pred(t) and 0 in ex:
            r.append(t)
    return r


def C11(ctx):
    ctx.rule("ed25519-gate", "every path on which Ed25519 verification returns Ok is dominated by: a 64-byte signature, S (all 32 bytes) compared below the group order, and equality of all 32 bytes of R with a value depending on the public key, the whole message, R and S")
    ctx.rule("ed25519-key", "an Ed25519 public key is built from bytes only if they are exactly 32 and decoded to a curve point; the key keeps that point and exactly those bytes")
    for arch, crate in archs(ctx):
        vs = [k for k in method_keys(crate, r"high::ed25519::Ed25519VerifyingKey$") if ret_ty(crate, k)["s"].startswith("core::result::Result<(),")]
        ctx.floor("Ed25519 verification functions (%s)" % arch, len(vs), 1)
        for k in vs:
            guarded(ctx, k + "/" + arch, ed_verify, arch, crate, k)
        mks = [k for k in method_keys(crate, r"high::ed25519::Ed25519VerifyingKey$") if "Ed25519VerifyingKey" in ret_ty(crate, k)["s"]]
        ctx.floor("Ed25519 public key constructors (%s)" % arch, len(mks), 2)
        for k in mks:
            guarded(ctx, k + "/" + arch, ed_key, arch, crate, k)


def ed_verify(ctx, arch, crate, key):
    E = ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    self_, sig, msg = av
    root = av_root(sig)
    oks = [o for o in outs if is_ok(o)]
    site = "%s/%s" % (key, arch)
    ctx.ob("ed25519-gate", site + " outcomes", oks and all(is_ok(o) or is_err(o) for o in outs), "no recognisable Ok/Err outcomes", where)
    for o in oks:
        ctx.ob("ed25519-gate", site + " length", known_len(o, sig.a[2]) == 64, "a path to Ok does not require 64 bytes", where)
        lts = nonzero_result(o, lambda t: re.search(r"bignum_cmp_lt$", t.a[0]))
        S = [strip_at(t.a[2][0]) for t in lts if limbs_int(strip_at(t.a[2][1])) == L25519 and int_parts(E, strip_at(t.a[2][0]), root) == set(range(32, 64))]
        if not S:
            for x, y in both(eq_facts(E, o)):
                if int_parts(E, x, root) == set(range(32, 64)) and y.op == "out" and re.search(r"mod_n25519$", y.a[0].a[0]) and not covers_raw(E, y, root) and covers_raw(E, x, root):
                    S.append(x)
        ctx.ob("ed25519-gate", site + " S < L", S, "a path to Ok does not compare all of S with the group order", where)
        best = None
        for x, y in both(eq_facts(E, o)):
            if int_parts(E, x, root) != set(range(32)) or not covers_raw(E, x, root):
                continue
            miss = []
            if not covers(E, y, av_root(self_)):
                miss.append("the public key")
            if not covers_whole(E, y, av_root(msg)):
                miss.append("the whole message")
            if not reads_bytes(E, y, root, 0, 32):
                miss.append("R")
            if not reads_bytes(E, y, root, 32, 64):
                miss.append("S")
            if covers_raw(E, y, root):
                miss.append("only recomputed bytes")
            if best is None or len(miss) < len(best):
                best = miss
        ctx.ob("ed25519-gate", site + " R", best == [], "a path to Ok is not gated by equality of R with a value depending on %s" % ("the inputs (no such equality)" if best is None else "; ".join(best)), where)
        ctx.count("verify Ok paths")


def ed_key(ctx, arch, crate, key):
    E = ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    root = av_root(av[0])
    site = "%s/%s" % (key, arch)
    oks = [o for o in outs if is_ok(o)]
    ctx.ob("ed25519-key", site + " outcomes", oks, "no Ok outcome", where)
    for o in oks:
        dec = nonzero_result(o, lambda t: re.search(r"edwards25519_decode$", t.a[0]))
        good = [t for t in dec if covers(E, t.a[2][1], root)]
        ctx.ob("ed25519-key", site + " decode", good, "a path to Ok does not require the bytes to decode to a curve point", where)
        v = E.view(o.st, o.ret)
        for t in good[:1]:
            ds = dep_set(E, v)
            ctx.ob("ed25519-key", site + " holds", mk("out", t, 0) in ds and strip_at(t.a[2][1]) in ds, "the key does not hold the decoded point and the bytes it was decoded from", where)
            enc = strip_at(t.a[2][1])
            # length of what is decoded: exactly 32
            ln = None
            b, pr = base_of(enc)
            if not pr:
                ln = known_len(o, av[0].a[2])
            elif pr[-1][0] == "r":
                d = E.ev(o.st, sub(pr[-1][2], pr[-1][1]))
                ln = d.a[0] if isint(d) else None
            ctx.ob("ed25519-key", site + " length", ln == 32, "the encoded key is not known to be exactly 32 bytes (%s)" % show(enc), where)


# ---------------------------------------------------------------- ML-KEM
def C19(ctx):
    ctx.rule("mlkem-reject", "every value ML-KEM decapsulation returns is selected, by an equality over the whole received ciphertext and the whole re-encryption, between the key derived from the decrypted message (and H(ek)) "
             "when equal and the implicit-rejection key derived from all of z and the whole ciphertext when not")
    ctx.rule("mlkem-import", "every path on which an encapsulation key is accepted is dominated by equality of all 1152 bytes of t_hat with their re-encoding after reduction; the key holds exactly the input bytes")
    ctx.rule("mlkem-encaps", "encapsulation succeeds only after the RNG filled all 32 bytes of the message, and the shared secret and ciphertext derive from that message and the key")
    for arch, crate in archs(ctx):
        dk = "graviola::mid::mlkem768::DecapKey"
        ds = [k for k in method_keys(crate, r"mlkem768::DecapKey$") if "SharedSecret" in ret_ty(crate, k)["s"]]
        ctx.floor("decapsulation functions (%s)" % arch, len(ds), 1)
        for k in ds:
            guarded(ctx, k + "/" + arch, decaps, arch, crate, k, dk)
        ks = [k for k in method_keys(crate, r"mlkem768::EncapKey$") if "EncapKey" in ret_ty(crate, k)["s"] and "EncapKey" not in arg_tys(crate, k)[0]["s"]]
        ctx.floor("encapsulation key constructors (%s)" % arch, len(ks), 1)
        for k in ks:
            guarded(ctx, k + "/" + arch, ek_import, arch, crate, k)
        es = [k for k in method_keys(crate, r"mlkem768::EncapKey$") if "SharedSecret" in ret_ty(crate, k)["s"] and ret_ty(crate, k)["s"].startswith("core::result")]
        ctx.floor("encapsulation functions (%s)" % arch, len(es), 1)
        for k in es:
            guarded(ctx, k + "/" + arch, encaps, arch, crate, k)


def whole_of(E, t, root, n):
    """t is (a view of) all n bytes of root, unprocessed"""
    t = strip_at(t)
    b, pr = base_of(t)
    if b is not root:
        return False
    for e in pr:
        if e[0] == "r" and not (e[1] is I(0) and e[2] is I(n)):
            return False
        if e[0] == "i":
            return False
    return True


def decaps(ctx, arch, crate, key, dk):
    E = ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    self_, c = av
    sroot, croot = av_root(self_), av_root(c)
    f = lambda n: fld(crate, sroot, dk, n)
    site = "%s/%s" % (key, arch)
    need = {n: f(n) for n in ("dk_pke", "z", "h_ek", "ek_pke")}
    ctx.ob("mlkem-reject", site + " fields", all(need.values()) and outs, "DecapKey fields not recognised", where)

    def has(t, n):
        return bool(covers(E, t, need[n]))

    def accept_ok(a):
        return has(a, "dk_pke") and bool(covers(E, a, croot)) and has(a, "h_ek")

    def reject_ok(b):
        z = covers(E, b, need["z"])
        return ("whole" in z or covers_whole(E, b, need["z"])) and not has(b, "dk_pke") and "whole" in covers(E, b, project(croot, ("f", 0)))

    def is_cmp(x, y):
        for p, q in ((x, y), (y, x)):
            if whole_of(E, p, croot, 1088) and not covers_raw(E, q, croot) and covers(E, q, croot) and has(q, "dk_pke") and has(q, "ek_pke") and has(q, "h_ek") \
                    and not (strip_at(q).op == "prj" and strip_at(q).a[1][0] in ("r", "i")):
                return True
        return False

    n = 0
    for o in outs:
        v = E.view(o.st, o.ret)
        v = v.a[2] if v.op == "agg" and len(v.a) > 2 else v
        for leaf in leaves(E, v):
            n += 1
            ok, why = False, show(leaf, 4)
            if leaf.op == "out" and leaf.a[0].op == "call" and re.search(r"::ct_copy$", leaf.a[0].a[0]):
                cond, A, B = leaf.a[0].a[2]
                neg = False
                while cond.op == "not":
                    cond, neg = cond.a[0], not neg
                A, B = strip_at(A), strip_at(B)
                if neg:
                    A, B = B, A
                if not (cond.op == "call" and re.search(r"::ct_equal$", cond.a[0]) and is_cmp(strip_at(cond.a[2][0]), strip_at(cond.a[2][1]))):
                    why = "the selection is not controlled by equality of the whole ciphertext with the whole re-encryption"
                elif not accept_ok(A):
                    why = "the key selected on equality does not derive from the decrypted message and H(ek)"
                elif not reject_ok(B):
                    why = "the key selected on inequality does not derive from exactly z and the whole ciphertext"
                else:
                    ok = True
            else:
                if any(is_cmp(x, y) for x, y in eq_facts(E, o, True)):
                    ok = accept_ok(leaf)
                elif any(is_cmp(x, y) for x, y in eq_facts(E, o, False)):
                    ok = reject_ok(leaf)
            ctx.ob("mlkem-reject", site, ok, "decapsulation can return a value not governed by implicit rejection: %s" % why, where)
    ctx.ob("mlkem-reject", site + " outcomes", n, "no outcome", where)
    ctx.count("returned values examined", n)


def ek_import(ctx, arch, crate, key):
    E = ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    root = av_root(av[0])
    site = "%s/%s" % (key, arch)
    oks = [o for o in outs if is_ok(o)]
    ctx.ob("mlkem-import", site + " outcomes", oks, "no Ok outcome", where)
    for o in oks:
        good = False
        for x, y in both(eq_facts(E, o)):
            p = int_parts(E, x, root)
            if covers_raw(E, x, root) and (p is None or p >= set(range(1152))) and not covers_raw(E, y, root) and reads_bytes(E, y, root, 0, 1152):
                good = True
        ctx.ob("mlkem-import", site + " modulus check", good, "a path to Ok does not compare all 1152 coefficient bytes with their reduced re-encoding", where)
        v = E.view(o.st, o.ret.a[2])
        ctx.ob("mlkem-import", site + " holds", reads_bytes(E, v, root, 0, 1184), "the key does not hold all input bytes", where)


def rng_calls(E, o):
    return [t for t in o.st.ev if t.op == "call" and re.search(r"getrandom|RandomSource", t.a[0])]


def encaps(ctx, arch, crate, key):
    E = ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    oks = [o for o in outs if is_ok(o)]
    ctx.ob("mlkem-encaps", site + " outcomes", oks and any(is_err(o) for o in outs), "encapsulation must be able to fail (RNG) and succeed", where)
    for o in oks:
        v = E.view(o.st, o.ret.a[2])
        ss, ct = (v.a[2], v.a[3]) if v.op == "agg" else (v, v)
        for nm, x in (("shared secret", ss), ("ciphertext", ct)):
            r = [t for t in dep_set(E, x) if isinstance(t, T) and t.op == "out" and t.a[0].op == "call" and re.search(r"getrandom|RandomSource", t.a[0].a[0])]
            ctx.ob("mlkem-encaps", site + " %s from RNG" % nm, r, "the %s does not depend on RNG output" % nm, where)
            ctx.ob("mlkem-encaps", site + " %s from key" % nm, covers(E, x, av_root(av[0])), "the %s does not depend on the encapsulation key" % nm, where)
