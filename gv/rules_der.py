"""Key import validation (C16) and strict DER parsing (C15)."""
import re
from .core import guarded
from .engine import *
from .engine import DEFAULT_OPAQUE
from .q import *
from .rules_ec import archs, av_root, known_len, covers_raw, range_ok, nonzero, sign_test, NISTS, fld, PN

OIDS = {
    "id-ecPublicKey": "1.2.840.10045.2.1", "prime256v1": "1.2.840.10045.3.1.7", "secp384r1": "1.3.132.0.34",
    "id-Ed25519": "1.3.101.112", "rsaEncryption": "1.2.840.113549.1.1.1",
}


def oid_der(s):
    a = [int(x) for x in s.split(".")]
    out = [a[0] * 40 + a[1]]
    for v in a[2:]:
        g = [v & 127]
        while v > 127:
            v >>= 7
            g.append(v & 127 | 128)
        out += g[::-1]
    return bytes(out)


def const_oid(E, t):
    """content octets of a constant ObjectId term (static or literal), None if it is not constant"""
    if t.op == "static":
        s = E.c.statics.get(t.a[0])
        if s and s.get("bytes"):
            b = bytes.fromhex(s["bytes"])
            return b[:int.from_bytes(b[16:24], "little")]
        return None
    if t.op == "agg" and len(t.a) == 4:
        buf, used = t.a[2], t.a[3]
        if not isint(used):
            return None
        if buf.op == "bytes":
            return bytes(buf.a[0])[:used.a[0]]
        if buf.op == "agg" and all(isint(x) for x in buf.a[2:]):
            return bytes(x.a[0] for x in buf.a[2:])[:used.a[0]]
    return None


def oid_eq(E, o, t, want):
    """on o, the ObjectId held in term t is known equal to the constant OID `want`"""
    got = set()
    for x, y in both(eq_facts(E, o)):
        for part, e in (("buf", ("f", 0)), ("used", ("f", 1))):
            if x is project(t, e):
                yb = strip_at(y)
                c = const_oid(E, yb.a[0]) if yb.op == "prj" and yb.a[1] == e else None
                if c is not None:
                    if c == want:
                        got.add(part)
                elif part == "used" and y is I(len(want)):
                    got.add(part)
                elif part == "buf" and yb.op in ("bytes", "agg"):
                    b = bytes(yb.a[0]) if yb.op == "bytes" else bytes(z.a[0] for z in yb.a[2:] if isint(z))
                    if b[:len(want)] == want and not any(b[len(want):]):
                        got.add(part)
        if x is t and const_oid(E, strip_at(y)) == want:
            return True
        if x.op == "prj" and x.a[1][0] == "r" and x.a[0] is project(t, ("f", 0)) and x.a[1][1] is I(0):
            yb = strip_at(y)
            hi = x.a[1][2]
            if hi is project(t, ("f", 1)):
                if yb.op == "bytes" and bytes(yb.a[0]) == want:
                    return True
                if yb.op == "prj" and yb.a[1][0] == "r" and yb.a[0].op == "prj" and const_oid(E, yb.a[0].a[0]) == want:
                    return True
    if "used" not in got:
        v = o.st.facts.get(project(t, ("f", 1)))
        if v is not None and isint(v) and v.a[0] == len(want):
            got.add("used")
    return got == {"buf", "used"}


def disc_is(o, t, v, n=2):
    """the enum value t is known to be variant v (of n)"""
    d = mk("disc", t)
    if t.op == "agg":
        return t.a[1] == v
    f = o.st.facts.get(d)
    if f is not None:
        return isint(f) and f.a[0] == v
    ne = set(o.st.ne.get(d, ()))
    return ne >= set(range(n)) - {v}


class Imp:
    """one decoded DER value on an outcome: dec is the Ok payload of a parse of the bytes at slice `src`"""

    def __init__(self, E, crate, o, call, adt):
        self.E, self.c, self.o, self.call, self.adt = E, crate, o, call, adt
        self.dec = project(project(call, ("d", 0)), ("f", 0))

    def f(self, name, adt=None, base=None):
        return fld(self.c, self.dec if base is None else base, adt or self.adt, name)

    def octets(self, t, *ctx):
        """root of the bytes of an Integer / OctetString / BitString value"""
        return mk("deref", project(t, ("f", 0)))

    def opt(self, name):
        """the Option inside a Context field"""
        return project(self.f(name), ("f", 0))


P = "graviola::high::asn1::pkix::"


def decoded(E, crate, o, root, adt):
    """the parse of the whole of `root` as `adt` that succeeded on o"""
    for t, v in o.st.facts.items():
        if t.op == "disc" and isint(v) and v.a[0] == 0 and t.a[0].op == "call" and re.search(r"asn1::Type::from_bytes$", t.a[0].a[0]):
            c = t.a[0]
            if len(c.a[2]) == 1 and strip_at(c.a[2][0]) is root:
                key = E.callinfo.get(c, (None, None, ""))[2]
                if re.search(re.escape(adt) + r"(<|\b(?!::))", key or ""):
                    return Imp(E, crate, o, c, adt)
    return None


def opaque_for(imports, own):
    rx = re.compile(r"asn1::Type::from_bytes$")
    s = set(imports)

    def f(key, path):
        return bool(DEFAULT_OPAQUE.match(path)) or bool(rx.search(path)) or (key in s and key != own)
    return f


def imported(E, o, root, keys, ret=True):
    """a checked import function (one of keys) was given the whole of root and succeeded on o; returns the call"""
    for t, v in o.st.facts.items():
        if t.op == "disc" and isint(v) and v.a[0] == 0 and t.a[0].op == "call" and E.callinfo.get(t.a[0], (0, 0, ""))[2] in keys \
                and len(t.a[0].a[2]) == 1 and strip_at(t.a[0].a[2][0]) is root:
            return t.a[0]
    t = strip_at(o.ret)
    if t.op == "call" and E.callinfo.get(t, (0, 0, ""))[2] in keys and len(t.a[2]) == 1 and strip_at(t.a[2][0]) is root:
        return t
    return None


def ok_like(o):
    return is_ok(o) or not is_err(o)


def C16(ctx):
    ctx.rule("pkcs8", "PKCS#8 import: the whole input is one OneAsymmetricKey; version and public key presence agree; algorithm and parameters are exactly the expected ones; the key is what the whole privateKey field decodes to; an embedded Ed25519 public key equals the computed one")
    ctx.rule("sec1", "SEC1 import: the whole input is one ECPrivateKey; a named curve equals the type's curve; the scalar is the whole privateKey, in [1, n-1]; an embedded public key equals the computed one")
    ctx.rule("scalar", "an EC private scalar is accepted only when it is in [1, n-1] and any excess leading bytes are zero")
    ctx.rule("rsa-import", "RSA import: whole input, two-prime version, non-negative odd modulus of 256..1024 bytes, exponent non-zero and at most 2^32-1, odd primes of 128..512 bytes with the same word width, dp and dq non-zero")
    ctx.rule("length", "fixed-size keys (Ed25519 seed and public key, X25519 private key) are accepted only at exactly 32 bytes, and Ed25519 SPKI only with its algorithm and no parameters")
    for arch, crate in archs(ctx):
        imps = {}
        for adt in (r"high::ecdsa::SigningKey$", r"high::ed25519::Ed25519(SigningKey|VerifyingKey)$", r"high::rsa::(SigningKey|VerifyingKey)$", r"mid::(p256|p384|x25519)::StaticPrivateKey$"):
            for k in method_keys(crate, adt):
                r, a = ret_ty(crate, k)["s"], arg_tys(crate, k)
                if not r.startswith("core::result::Result<") or len(a) != 1 or a[0]["s"] not in ("&[u8]",) and not re.match(r"&'\S+ \[u8\]$", a[0]["s"]):
                    continue
                if re.search(adt, crate.fns[k]["self_adt"]) and crate.fns[k]["self_adt"].rsplit("::", 1)[-1] in r:
                    imps[k] = r
        ctx.floor("key import functions (%s)" % arch, len(imps), 14)
        allk = sorted(imps)
        for k in allk:
            guarded(ctx, k + "/" + arch, one_import, arch, crate, k, allk)


def one_import(ctx, arch, crate, key, allk):
    E = ctx.engine(crate, opaque=opaque_for(allk, key), K=64)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    oks = [o for o in outs if ok_like(o)]
    root = av_root(av[0])
    name = key.rsplit("::", 1)[-1]
    adt = crate.fns[key]["self_adt"]
    curve = next((c for c in NISTS if "curve::%s>" % c[2] in key or "mid::%s::" % c[0] in key), None)
    kind = None
    if "pkcs8" in name:
        kind = "pkcs8"
    elif "sec1" in name:
        kind = "sec1"
    elif "pkcs1" in name:
        kind = "rsa"
    elif "spki" in name:
        kind = "spki"
    elif curve:
        kind = "scalar"
    else:
        kind = "fixed"
    rule = {"pkcs8": "pkcs8", "sec1": "sec1", "rsa": "rsa-import", "spki": "length", "scalar": "scalar", "fixed": "length"}[kind]
    ctx.ob(rule, site + " outcomes", oks, "no success outcome recognised", where)

    def ob(what, ok, msg):
        ctx.ob(rule, "%s %s" % (site, what), ok, "a path to Ok " + msg, where)
    for o in oks:
        ctx.count("import Ok paths")
        if kind == "pkcs8":
            pkcs8(ob, E, crate, o, root, key, allk, curve, adt)
        elif kind == "sec1":
            sec1(ob, E, crate, o, root, allk, curve)
        elif kind == "scalar":
            scalar(ob, E, o, av[0], root, curve)
        elif kind == "rsa":
            rsa(ob, E, crate, o, root, adt.endswith("SigningKey"))
        elif kind == "spki":
            spki(ob, E, crate, o, root, allk)
        else:
            fixed(ob, E, o, av[0].a[2], root)


def fixed(ob, E, o, ln, root):
    ob("length", known_len(o, ln) == 32, "accepts an encoding not known to be exactly 32 bytes")
    ob("bytes used", reads_bytes(E, E.view(o.st, o.ret), root, 0, 32), "does not use all 32 bytes")


def pkcs8(ob, E, crate, o, root, key, allk, curve, adt):
    p = decoded(E, crate, o, root, P + "OneAsymmetricKey")
    ob("whole input", p, "does not decode the whole input as one OneAsymmetricKey")
    if not p:
        return
    A = P + "OneAsymmetricKey"
    ver, pub = p.f("version"), p.opt("publicKey")
    v = [x["name"] for x in crate.adts[P + "Pkcs8Version"]["variants"]]
    both_ = (disc_is(o, ver, v.index("Pkcs8v1"), len(v)) and disc_is(o, pub, 0)) or (disc_is(o, ver, v.index("Pkcs8v2"), len(v)) and disc_is(o, pub, 1))
    ob("version", both_, "does not require version v1 without public key, or v2 with one")
    alg = p.f("privateKeyAlgorithm")
    g = lambda n: fld(crate, alg, P + "AlgorithmIdentifier", n)
    want = "rsaEncryption" if "rsa" in adt else "id-Ed25519" if "ed25519" in adt else "id-ecPublicKey"
    ob("algorithm", oid_eq(E, o, g("algorithm"), oid_der(OIDS[want])), "does not require the key algorithm to be " + want)
    par = g("parameters")
    anyv = [x["name"] for x in crate.adts["graviola::high::asn1::Any"]["variants"]]
    inner = project(project(par, ("d", 1)), ("f", 0))
    if "ed25519" in adt:
        okp = disc_is(o, par, 0)
    elif "rsa" in adt:
        okp = disc_is(o, par, 1) and disc_is(o, inner, anyv.index("Null"), len(anyv))
    else:
        i = anyv.index("ObjectId")
        okp = disc_is(o, par, 1) and disc_is(o, inner, i, len(anyv)) and oid_eq(E, o, project(project(inner, ("d", i)), ("f", 0)), oid_der(OIDS[{"p256": "prime256v1", "p384": "secp384r1"}[curve[0]]]))
    ob("parameters", okp, "does not require the algorithm parameters to be exactly those of this key type")
    oct_ = p.octets(p.f("privateKey"))
    if "ed25519" in adt:
        q = decoded(E, crate, o, oct_, "graviola::high::asn1::OctetString")
        ob("private key", q, "does not decode the whole privateKey field as one OCTET STRING")
        if not q:
            return
        seed = q.octets(q.dec)
        c = imported(E, o, seed, [k for k in allk if crate.fns[k]["self_adt"] == adt])
        if c is None:
            ln = mk("len", seed.a[0])
            ob("seed length", known_len(o, ln) == 32, "accepts a seed not known to be 32 bytes")
            ob("seed used", covers_whole(E, E.view(o.st, o.ret), seed) or reads_bytes(E, E.view(o.st, o.ret), seed, 0, 32), "does not use the decoded seed")
            src = lambda t: depends(E, t, lambda z: z is seed)
        else:
            ob("seed used", depends(E, E.view(o.st, o.ret), lambda z: z is c), "does not use the decoded seed")
            src = lambda t: depends(E, t, lambda z: z is c)
        if disc_is(o, pub, 1):
            pk = mk("deref", project(project(project(pub, ("d", 1)), ("f", 0)), ("f", 0)))
            ok = any((x is pk) and src(y) and not depends(E, y, lambda z: z is pk) for x, y in both(eq_facts(E, o)))
            ob("embedded public key", ok, "does not require the embedded public key to equal the one computed from the seed")
        return
    inner_keys = [k for k in allk if crate.fns[k]["self_adt"] == adt and k != key and (curve is None or "curve::%s>" % curve[2] in k)]
    c = imported(E, o, oct_, [k for k in inner_keys if re.search("sec1" if curve else "pkcs1", k.rsplit("::", 1)[-1])])
    if c is not None:
        ob("private key", o.ret is c or depends(E, E.view(o.st, o.ret), lambda z: z is c), "does not return the key decoded from the privateKey field")
    elif curve:
        sec1(ob, E, crate, o, oct_, allk, curve)
    else:
        rsa(ob, E, crate, o, oct_, True)


def sec1(ob, E, crate, o, root, allk, curve):
    p = decoded(E, crate, o, root, P + "EcPrivateKey")
    ob("whole input", p, "does not decode the whole input as one ECPrivateKey")
    if not p:
        return
    par, pub = p.opt("parameters"), p.opt("publicKey")
    want = oid_der(OIDS[{"p256": "prime256v1", "p384": "secp384r1"}[curve[0]]])
    ob("curve", disc_is(o, par, 0) or oid_eq(E, o, project(project(par, ("d", 1)), ("f", 0)), want), "accepts parameters naming another curve")
    oct_ = p.octets(p.f("privateKey"))
    c = imported(E, o, oct_, [k for k in allk if re.search(r"mid::%s::" % curve[0], k)])
    if c is not None:
        held = lambda t: depends(E, t, lambda z: z is c)
        ob("scalar", held(E.view(o.st, o.ret)), "does not return the key decoded from the privateKey field")
    else:
        xs = scalar(ob, E, o, None, oct_, curve, length=mk("len", oct_.a[0]))
        held = lambda t: any(depends(E, t, lambda z: z is x) for x in xs)
    if not disc_is(o, pub, 0):
        pk = mk("deref", project(project(project(pub, ("d", 1)), ("f", 0)), ("f", 0)))
        ok = any((x is pk) and held(y) and not depends(E, y, lambda z: z is pk) for x, y in both(eq_facts(E, o)))
        ob("embedded public key", ok, "does not require an embedded public key to equal the one computed from the private key")


def scalar(ob, E, o, arg, root, curve, length=None):
    nb = curve[1]
    ln = length if length is not None else arg.a[2]
    L = known_len(o, ln)

    def pred(x):
        if L == nb:
            return reads_bytes(E, x, root, 0, nb)
        return depends(E, x, lambda z: z is root or z.op == "deref" and suffix_of(E, z, root))
    xs = range_ok(E, o, pred, ORDER[curve[0]], curve[0])
    ob("range", xs, "does not require the scalar to be below the group order")
    ob("non-zero", any(nonzero(E, o, x) for x in xs), "does not require the scalar to be non-zero")
    val = E.view(o.st, o.ret)
    ob("held", any(depends(E, val, lambda z, x=x: z is x) for x in xs), "returns a key other than the scalar that was checked")
    if L != nb and o.st.facts.get(b_lt(ln, I(nb))) is not TRUE:
        ob("excess bytes", excess_zero(E, o, root, nb), "accepts an over-long encoding without requiring the excess leading bytes to be zero")
    return xs


def suffix_of(E, z, root):
    """z = deref(p) where p is root's slice, or a loop-carried suffix of it"""
    seen, st = set(), [z.a[0]]
    while st:
        p = st.pop()
        if p in seen:
            continue
        seen.add(p)
        if p is root.a[0] or p.op == "ref" and p.a[0] == ("S", root.a[0]):
            return True
        if p.op == "phi":
            st.extend(E.phis.get(p, ()))
        elif p.op == "ref" and p.a[0][0] == "S" and isinstance(p.a[0][1], T):
            st.append(p.a[0][1])
    return False


def excess_zero(E, o, root, nb):
    """every dropped leading byte was tested to be zero"""
    for t in o.st.ev:
        if t.op == "forall":
            f, v = t.a[0], t.a[1]
            if isint(v) and zero_byte(E, f, v, root):
                return True
    return False


def zero_byte(E, f, v, root):
    if f.op == "eq" and v.a[0] == 1 and f.a[1] is I(0):
        t = f.a[0]
    elif v.a[0] == 0:
        t = f
    else:
        return False
    b, pr = base_of(strip_at(t))
    return bool(pr) and pr[-1][0] == "i" and b.op == "deref" and (b is root or suffix_of(E, b, root))


ORDER = {c: PN[c][3] for c in PN}


def spki(ob, E, crate, o, root, allk):
    p = decoded(E, crate, o, root, P + "SubjectPublicKeyInfo")
    ob("whole input", p, "does not decode the whole input as one SubjectPublicKeyInfo")
    if not p:
        return
    alg = p.f("algorithm")
    g = lambda n: fld(crate, alg, P + "AlgorithmIdentifier", n)
    ob("algorithm", oid_eq(E, o, g("algorithm"), oid_der(OIDS["id-Ed25519"])), "does not require the algorithm to be id-Ed25519")
    ob("parameters", disc_is(o, g("parameters"), 0), "does not require the parameters to be absent")
    oct_ = p.octets(p.f("subjectPublicKey"))
    c = imported(E, o, oct_, [k for k in allk if "ed25519" in k])
    if c is None:
        ob("length", known_len(o, mk("len", oct_.a[0])) == 32, "accepts a public key not known to be 32 bytes")
        ob("key used", reads_bytes(E, E.view(o.st, o.ret), oct_, 0, 32), "does not use the encoded public key")
    else:
        ob("key used", o.ret is c or depends(E, E.view(o.st, o.ret), lambda z: z is c), "does not use the encoded public key")


def bounds(o, t):
    """(lo, hi) established for the term t by comparisons with constants"""
    lo, hi = 0, None
    for f, v in o.st.facts.items():
        if f is t and isint(v):
            return v.a[0], v.a[0]
        if f.op == "lt" and isint(v):
            if f.a[0] is t and isint(f.a[1]):
                if v.a[0]:
                    hi = min(hi, f.a[1].a[0] - 1) if hi is not None else f.a[1].a[0] - 1
                else:
                    lo = max(lo, f.a[1].a[0])
            elif f.a[1] is t and isint(f.a[0]):
                if v.a[0]:
                    lo = max(lo, f.a[0].a[0] + 1)
                else:
                    hi = min(hi, f.a[0].a[0]) if hi is not None else f.a[0].a[0]
    return lo, hi


def rsa(ob, E, crate, o, root, private):
    adt = P + ("RSAPrivateKey" if private else "RSAPublicKey")
    p = decoded(E, crate, o, root, adt)
    ob("whole input", p, "does not decode the whole input as one " + adt.rsplit("::", 1)[-1])
    if not p:
        return
    roots = {f["name"]: p.octets(p.f(f["name"])) for f in crate.adts[adt]["variants"][0]["fields"] if f["name"] != "version"}

    def only(t, name):
        """t is computed from the bytes of this field and no other"""
        return covers(E, t, roots[name]) and not any(covers(E, t, r) for n, r in roots.items() if n != name)

    def call(rx, name, val):
        return any(t.op == "call" and re.search(rx, t.a[0]) and isint(v) and bool(v.a[0]) == val and t.a[2] and only(t.a[2][0], name) for t, v in o.st.facts.items())

    def length(name, lo, hi):
        for t in list(o.st.facts):
            if t.op == "lt":
                for x in t.a:
                    if x.op == "call" and re.search(r"::len_bytes$", x.a[0]) and only(x.a[2][0], name):
                        a, b = bounds(o, x)
                        if a >= lo and b is not None and b <= hi:
                            return True
        return False
    if private:
        vs = [x["name"] for x in crate.adts[P + "Version"]["variants"]]
        ob("version", disc_is(o, p.f("version"), vs.index("two_prime"), len(vs)), "does not require the two-prime version")
    neg = [t for t, v in o.st.facts.items() if sign_test(t, v, roots["modulus"])]
    empty = known_len(o, mk("len", roots["modulus"].a[0])) == 0
    ob("modulus sign", neg or empty, "does not require the modulus to be non-negative")
    ob("modulus odd", call(r"::is_even$", "modulus", False), "does not require the modulus to be odd")
    ob("modulus size", length("modulus", 256, 1024), "does not bound the modulus to 256..1024 bytes")
    es = []
    for t, v in o.st.facts.items():
        if t.op == "lt" and isint(v):
            if v.a[0] == 0 and t.a[0].op == "int" and t.a[0].a[0] <= 0xffffffff and only(t.a[1], "publicExponent"):
                es.append(t.a[1])
            elif v.a[0] == 1 and t.a[1].op == "int" and t.a[1].a[0] <= 1 << 32 and only(t.a[0], "publicExponent"):
                es.append(t.a[0])
    ob("exponent fits", es, "does not require the public exponent to be at most 2^32-1")
    nz = any(0 in ex and only(t, "publicExponent") for t, ex in o.st.ne.items()) or any(
        isint(v) and v.a[0] == 0 and t.op == "eq" and t.a[1] is I(0) and only(t.a[0], "publicExponent") for t, v in o.st.facts.items()) or any(
        isint(v) and v.a[0] == 1 and t.op == "lt" and t.a[0] is I(0) and only(t.a[1], "publicExponent") for t, v in o.st.facts.items())
    ob("exponent non-zero", nz, "does not require the public exponent to be non-zero")
    if not private:
        return
    for n in ("prime1", "prime2"):
        ob(n + " odd", call(r"::is_even$", n, False), "does not require %s to be odd" % n)
    ob("prime size", length("prime1", 128, 512) or length("prime2", 128, 512), "does not bound the primes to 128..512 bytes")
    width = length("prime1", 128, 512) and length("prime2", 128, 512)
    for x, y in both(eq_facts(E, o)):
        if only(x, "prime1") and only(y, "prime2") and any(z.op == "call" and re.search(r"::len_bytes$|::len_words$|used", z.a[0]) for z in subterms(x)):
            width = True
    ob("prime widths", width, "does not require both primes to have the same word width")
    for n in ("exponent1", "exponent2"):
        ob(n + " non-zero", call(r"::is_zero$", n, False), "does not require %s to be non-zero" % n)


# ---------------------------------------------------------------- C15: strict DER
A = "graviola::high::asn1::"
UNI = {"Integer": 2, "BitString": 3, "OctetString": 4, "Null": 5, "ObjectId": 6}
U64 = (1 << 64) - 1


class Conc:
    """evaluate guard terms for concrete leading bytes of one byte string (length unknown or given) and concrete values of some terms"""

    def __init__(self, root, data, length=None, vals=None):
        self.root, self.data, self.length, self.vals = root, data, length, vals or {}

    def ev(self, t):
        if t in self.vals:
            return self.vals[t]
        if isint(t):
            return t.a[0]
        op = t.op
        if op == "at":
            return self.ev(t.a[0])
        if op == "len" and self.root is not None and t.a[0] is self.root.a[0]:
            return self.length
        if op == "prj":
            b, pr = base_of(t)
            if b is self.root and len(pr) == 1 and pr[0][0] == "i":
                i = self.ev(pr[0][1])
                if i is not None and i < len(self.data):
                    return self.data[i]
            return None
        if op == "lin":
            s = t.a[0]
            for x, k in t.a[1]:
                v = self.ev(x)
                if v is None:
                    return None
                s += v * k
            return s & U64
        if op in ("eq", "lt"):
            x, y = self.ev(t.a[0]), self.ev(t.a[1])
            if x is None or y is None:
                return None
            return int(x == y if op == "eq" else x < y)
        if op in ("and", "or"):
            v = [self.ev(x) for x in t.a]
            k = 0 if op == "and" else 1
            if any(x is not None and bool(x) == bool(k) for x in v):
                return k
            return None if None in v else 1 - k
        if op == "not":
            x = self.ev(t.a[0])
            return None if x is None else 1 - x
        if op == "ite":
            c = self.ev(t.a[0])
            return None if c is None else self.ev(t.a[1] if c else t.a[2])
        if op == "cast":
            x = self.ev(t.a[1])
            w = {"u8": 8, "u16": 16, "u32": 32}.get(str(t.a[0]), 64)
            return None if x is None else x & ((1 << w) - 1)
        if op == "bin":
            x, y = self.ev(t.a[1]), self.ev(t.a[2])
            if x is None or y is None:
                return None
            o = t.a[0]
            try:
                return {"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: (x << y) & U64, "Shr": lambda: x >> y,
                        "Add": lambda: (x + y) & U64, "Sub": lambda: (x - y) & U64, "Mul": lambda: (x * y) & U64, "Rem": lambda: x % y, "Div": lambda: x // y,
                        "Lt": lambda: int(x < y), "Le": lambda: int(x <= y), "Gt": lambda: int(x > y), "Ge": lambda: int(x >= y), "Eq": lambda: int(x == y), "Ne": lambda: int(x != y)}[o]()
            except (KeyError, ZeroDivisionError):
                return None
        if op in ("from_be", "from_le"):
            b = self.bytes_of(t.a[1])
            if b is None or len(b) != t.a[0]:
                return None
            return int.from_bytes(bytes(b), "big" if op == "from_be" else "little")
        return None

    def bytes_of(self, t):
        t = strip_at(t)
        if t.op == "rep":
            v, n = self.ev(t.a[0]), self.ev(t.a[1]) if isinstance(t.a[1], T) else t.a[1]
            return None if v is None or n is None or n > 64 else [v] * n
        if t is self.root:
            return list(self.data[:self.length]) if self.length is not None and self.length <= len(self.data) else None
        if t.op == "bytes":
            return list(t.a[0])
        if t.op == "agg" and t.a[0] == "array":
            r = [self.ev(x) for x in t.a[2:]]
            return None if None in r else r
        if t.op == "prj" and t.a[1][0] == "r":
            b, lo, hi = self.bytes_of(t.a[0]), self.ev(t.a[1][1]), self.ev(t.a[1][2])
            return None if b is None or lo is None or hi is None or not lo <= hi <= len(b) else b[lo:hi]
        if t.op == "upd":
            b = self.bytes_of(t.a[0])
            if b is None:
                return None
            e = t.a[1]
            if e[0] == "i":
                i, v = self.ev(e[1]), self.ev(t.a[2])
                if i is None or v is None or i >= len(b):
                    return None
                b[i] = v
                return b
            if e[0] == "r":
                lo, hi, v = self.ev(e[1]), self.ev(e[2]), self.bytes_of(t.a[2])
                if lo is None or hi is None or v is None or hi - lo != len(v):
                    return None
                b[lo:hi] = v
                return b
        return None

    def holds(self, o):
        """False if o is impossible for these bytes; True if nothing says so"""
        for t, v in o.st.facts.items():
            x = self.ev(t)
            y = self.ev(v) if isinstance(v, T) else v
            if x is not None and y is not None and x != y:
                return False
        for t, ex in o.st.ne.items():
            x = self.ev(t)
            if x is not None and x in ex:
                return False
        return True


def is_take(k, p):
    return re.search(r"asn1::Parser::<.*>::", p) and not re.search(r"::(new|check_end|left|peek_tag|descend|one_byte|take_len)$", p)


def slice_ty(t):
    return re.match(r"&('\S+ )?\[u8\]$", t["s"]) is not None


def C15(ctx):
    ctx.rule("tlv", "the element reader accepts exactly the wanted tag byte and a definite length in its shortest form, returns exactly the content octets, and advances past exactly that element (decided for every tag, and for every leading length octet and the boundary values of the following ones)")
    ctx.rule("primitive", "INTEGER is non-empty and minimally encoded, NULL is empty, BIT STRING has zero unused bits and drops only that octet, OBJECT IDENTIFIER keeps every octet of at most 16; each returns the content it was given")
    ctx.rule("enum", "an enumerated INTEGER is accepted only with exactly one of its values, and yields the variant of that value")
    ctx.rule("tag", "each type is parsed with its own DER tag; ANY chooses the variant by the tag it saw; an absent context element is one whose tag differs")
    ctx.rule("trailing", "no trailing data after the fields of a SEQUENCE, inside an explicit tag, or after the outermost value; fields are read in order, each from where the previous one ended")
    for arch, crate in archs(ctx):
        loc = [k for k, f in crate.fns.items() if f.get("local") and f.get("body")]
        takes = [k for k in loc if re.search(r"asn1::Parser::<.*>::", k) and "Result<" in ret_ty(crate, k)["s"] and re.search(r"&('\S+ )?\[u8\]", ret_ty(crate, k)["s"]) and "{closure" not in k]
        ctx.floor("element readers (%s)" % arch, len(takes), 1)
        for k in takes:
            guarded(ctx, k + "/" + arch, tlv, arch, crate, k)
        pwt = [k for k in loc if re.match(r"<.* as graviola::high::asn1::Type<'_>>::parse_with_tag$", k) and not re.match(r"<graviola::high::asn1::Context<'a", k)]
        par = [k for k in loc if re.match(r"<.* as graviola::high::asn1::Type<'_>>::parse$", k)]
        fb = [k for k in loc if re.match(r"<.* as graviola::high::asn1::Type<'_>>::from_bytes$", k)]
        ctx.floor("type parsers (%s)" % arch, len(pwt), 20)
        ctx.floor("whole-input parsers (%s)" % arch, len(fb), 7)
        stop = set(takes) | set(pwt) | set(par) | set(fb)
        tp = {crate.fns[k]["path"] for k in takes}
        for k in pwt:
            guarded(ctx, k + "/" + arch, type_parser, arch, crate, k, tp)
        for k in par:
            guarded(ctx, k + "/" + arch, tag_const, arch, crate, k)
        for k in fb:
            guarded(ctx, k + "/" + arch, from_bytes, arch, crate, k)


def tlv(ctx, arch, crate, key):
    E = ctx.engine(crate, K=64)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    oks = [o for o in outs if is_ok(o)]
    ctx.ob("tlv", site + " outcomes", oks and all(is_ok(o) or is_err(o) for o in outs), "no recognisable Ok/Err outcomes", where)
    pre = mk("deref", av[0].a[0][1]) if av[0].a[0][0] == "S" else None
    inp = project(pre, ("f", 0))
    root = mk("deref", inp)
    want = project(av[1], ("f", 0))
    parts = []
    for o in oks:
        body = [x for x in subterms_of_ret(o.ret) if x.op == "ref" and x.a[2] is not None]
        post = project(E.content(o.st, av[0].a[0]), ("f", 0))
        ok = len(body) == 1 and body[0].a[0] == ("S", inp)
        ctx.ob("tlv", site + " content", ok, "does not return a part of the parser's input", where)
        if not ok:
            return
        parts.append((o, body[0], post))

    def span(c, r):
        """(lo, length) of slice term r within the input"""
        if r is inp:
            return 0, None
        if r.op != "ref" or r.a[0] != ("S", inp):
            return None
        lo = 0
        hi = None
        for e in r.a[1]:
            if e[0] != "r":
                return None
            lo = (lo + (c.ev(e[1]) if c.ev(e[1]) is not None else 1 << 60))
        return lo, c.ev(r.a[2])
    bad = {}
    n = 0
    full = [0, 1, 0x7e, 0x7f, 0x80, 0x81, 0x82, 0xfe, 0xff]
    cases = []
    for tag in range(256):
        for w in {tag, 0x30, 2, (tag ^ 0x20), (tag + 1) & 255}:
            cases.append((tag, w, [1, 0, 0, 0, 0]))
    for b1 in range(256):
        for b2 in (range(256) if 0x80 <= b1 <= 0x84 else full):
            for b3 in (full if b1 >= 0x80 else [0]):
                cases.append((0x30, 0x30, [b1, b2, b3, 0, 7]))
                if b1 in (0x83, 0x84):
                    cases.append((0x30, 0x30, [b1, b2, b3, 1, 255]))
    for tag, w, ln in cases:
        d = [tag] + ln
        b1 = ln[0]
        if b1 <= 0x7f:
            exp = (2, b1)
        else:
            k = b1 & 0x7f
            exp = None
            if 1 <= k <= 4:
                v = int.from_bytes(bytes(ln[1:1 + k]), "big")
                if v >= (0x80 if k == 1 else 1 << (8 * (k - 1))):
                    exp = (2 + k, v)
        if tag != w:
            exp = None
        L = (exp[0] + exp[1] + 9) if exp else 1 << 20
        for Ln in ([L, exp[0] + exp[1], exp[0] + exp[1] - 1] if exp else [L]):
            c = Conc(root, d[:], Ln, {want: w})
            for o, body, post in parts:
                if not c.holds(o):
                    continue
                n += 1
                msg = None
                if exp is None:
                    msg = ("tag", "an element with a tag other than the wanted one is accepted") if tag != w else ("length form", "a length that is not definite and in shortest form is accepted (length octets %s)" % bytes(ln[:3]).hex())
                elif Ln < exp[0] + exp[1]:
                    msg = ("bounds", "an element running past the end of the input is accepted")
                else:
                    s = span(c, body)
                    if s is None or s[0] != exp[0] or s[1] != exp[1]:
                        msg = ("content", "the content returned is not exactly the content octets (length octets %s)" % bytes(ln[:3]).hex())
                    else:
                        s = span(c, post)
                        if s is None or s[0] != exp[0] + exp[1] or s[1] != Ln - exp[0] - exp[1]:
                            msg = ("advance", "the parser does not advance past exactly this element (length octets %s)" % bytes(ln[:3]).hex())
                if msg:
                    bad.setdefault(*msg)
    ctx.count("header cases reaching Ok", n)
    for what in ("tag", "length form", "bounds", "content", "advance"):
        ctx.ob("tlv", "%s %s" % (site, what), what not in bad, bad.get(what, ""), where)
    ctx.ob("tlv", site + " reached", n > 300, "no accepted header was recognised", where)


def subterms_of_ret(t):
    out = []
    st = [t]
    while st:
        x = st.pop()
        out.append(x)
        if x.op == "agg":
            st.extend(y for y in x.a[2:] if isinstance(y, T))
    return out


def parser_opaque(own, takes):
    rx = re.compile(r"asn1::Type(<.*>)?>?::(parse|parse_with_tag)$")

    def f(key, path):
        if key == own:
            return False
        return bool(DEFAULT_OPAQUE.match(path)) or bool(rx.search(path)) or path in takes
    return f


def parse_calls(E, o):
    """parse/take calls that succeeded on o"""
    r = []
    for t, v in o.st.facts.items():
        if t.op == "disc" and isint(v) and v.a[0] == 0 and t.a[0].op == "call":
            c = t.a[0]
            if re.search(r"asn1::(Parser::.*|Type(<.*>)?>?::parse(_with_tag)?$)", c.a[0]):
                r.append(c)
    if o.ret.op == "call" and re.search(r"asn1::Type(<.*>)?>?::parse(_with_tag)?$", o.ret.a[0]):
        r.append(o.ret)
    return r


def chain(calls, first):
    """order the calls by the parser state each one starts from; (ordered, final state)"""
    cur, out = first, []
    rest = list(calls)
    while True:
        nx = [c for c in rest if strip_at(c.a[2][0]) is cur]
        if len(nx) != 1:
            return out, cur, rest
        out.append(nx[0])
        rest.remove(nx[0])
        cur = mk("out", nx[0], 0)


def payload(c):
    return project(project(c, ("d", 0)), ("f", 0))


def ended(o, p):
    """the parser state p is known to have no input left"""
    return len_zero(o, ref_len(project(p, ("f", 0))))


def len_zero(o, ln):
    return known_len(o, ln) == 0 or bounds(o, ln)[1] == 0


def ref_len(t):
    if t.op == "ref":
        return t.a[2]
    return mk("len", t)


def tyname(key):
    return re.match(r"<(.*) as graviola::high::asn1::Type<'_>>::", key).group(1)


def type_parser(ctx, arch, crate, key, takes):
    E = ctx.engine(crate, K=64, opaque=parser_opaque(key, takes))
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    ty = tyname(key)
    site = "%s/%s" % (ty, arch)
    short_ = re.sub(r"<.*", "", ty).rsplit("::", 1)[-1]
    base = re.sub(r"<.*", "", ty)
    pre = mk("deref", av[0].a[0][1])
    inp = project(pre, ("f", 0))
    adt = crate.adts.get(base)
    oks = [o for o in outs if ok_like(o)]
    ctx.ob("trailing", site + " outcomes", oks, "no success outcome recognised", where)

    def ob(rule, what, ok, msg):
        ctx.ob(rule, "%s %s" % (site, what), ok, "a path to Ok " + msg, where)
    for o in oks:
        ctx.count("parser Ok paths")
        cs = parse_calls(E, o)
        post = E.content(o.st, av[0].a[0])
        if ty.startswith("core::option::Option<"):
            if is_ok(o) and o.ret.a[2].op == "agg" and o.ret.a[2].a[1] == 0:
                ob("trailing", "absent", len_zero(o, mk("len", inp)) and post is pre, "reads an optional element as absent although input is left")
            else:
                ob("trailing", "present", len(cs) == 1 and strip_at(cs[0].a[2][0]) is pre and post is mk("out", cs[0], 0), "does not read the optional element from the parser")
            continue
        if short_ == "Context":
            context(ob, E, o, cs, pre, inp, post, ty, av, crate)
            continue
        if short_ == "Any":
            v = o.ret.a[2].a[1] if is_ok(o) and o.ret.a[2].op == "agg" else None
            names = [x["name"] for x in adt["variants"]]
            b = o.st.facts.get(project(mk("deref", inp), ("i", I(0))))
            ok = v is not None and b is not None and isint(b) and UNI.get(names[v]) == b.a[0]
            ob("tag", "ANY", ok, "does not choose the variant by the universal tag it saw")
            ob("tag", "ANY value", len(cs) == 1 and strip_at(cs[0].a[2][0]) is pre and post is mk("out", cs[0], 0) and any_key(E, cs[0], names[v] if v is not None else ""), "does not read the element with the parser of the variant's type")
            continue
        if short_ in UNI:
            primitive(ob, E, o, cs, pre, post, av, short_, crate)
            continue
        if adt and adt["kind"] == "enum":
            enum(ob, E, o, cs, pre, post, av, adt, crate)
            continue
        # SEQUENCE
        tk = [c for c in cs if not re.search(r"asn1::Type", c.a[0])]
        ok = len(tk) == 1 and strip_at(tk[0].a[2][0]) is pre and tk[0].a[2][1] is av[1] and post is mk("out", tk[0], 0)
        ob("trailing", "element", ok, "does not read exactly one element with the wanted tag")
        if not ok:
            continue
        rest = [c for c in cs if c is not tk[0]]
        first = [c for c in rest if fresh_parser(c.a[2][0], tk[0])]
        if len(first) != 1:
            ob("trailing", "fields", False, "does not read its fields from the content of the element")
            continue
        seq, end, left = chain(rest, strip_at(first[0].a[2][0]))
        nf = len(adt["variants"][0]["fields"]) if adt else 0
        ob("trailing", "fields", not left and len(seq) == nf, "does not read each field once, in order, from where the previous one ended")
        ob("trailing", "end", ended(o, end), "leaves data after the last field unread")
        val = o.ret.a[2] if is_ok(o) else None
        fs = val is not None and val.op == "agg" and len(val.a) - 2 == len(seq) and all(payload(c) is f or payload(c) is E.view(o.st, f) for c, f in zip(seq, val.a[2:]))
        ob("trailing", "field values", fs, "does not store each field's value in its own place")


def any_key(E, c, name):
    return ("asn1::%s" % name) in (E.callinfo.get(c, ("", 0, ""))[2] or "")


def fresh_parser(arg, take):
    """arg is a parser over the content octets returned by `take`"""
    p = strip_at(arg)
    if p.op != "agg" or not p.a[0].endswith("asn1::Parser"):
        return False
    d = p.a[2]
    b = mk("deref", content_of(take))
    return strip_at(d) is b or d is content_of(take) or d.op == "ref" and d.a[0] == ("S", content_of(take)) and not d.a[1]


def content_of(take):
    """the slice returned by a take call: last field of the tuple, or the payload itself"""
    return project(payload(take), ("f", 1))


def enum(ob, E, o, cs, pre, post, av, adt, crate):
    ok = len(cs) == 1 and strip_at(cs[0].a[2][0]) is pre and cs[0].a[2][1] is av[1] and post is mk("out", cs[0], 0) and any_key(E, cs[0], "Integer")
    ob("enum", "integer", ok, "does not read the value as one INTEGER")
    if not ok:
        return
    sl = project(payload(cs[0]), ("f", 0))
    root = mk("deref", sl)
    vi = o.ret.a[2].a[1] if is_ok(o) and o.ret.a[2].op == "agg" else None
    want = E.disc_val(o.ret.a[2].a[0], vi) if vi is not None else None
    bad = None
    hit = False
    for n in (1, 2, 3, 8, 9):
        for b0 in list(range(256)) if n == 1 else [0, 1, 0x7f, 0x80, 0xff]:
            for b1 in ([0] if n == 1 else [0, 1, 0x80, 0xff]):
                for last in ([None] if n < 3 else [0, 1, 2, 5]):
                    d = ([b0, b1] + [0] * 16)[:n]
                    if last is not None:
                        d[-1] = last
                    if n > 1 and (b0 == 0 and b1 < 0x80 or b0 == 255 and b1 >= 0x80):
                        continue  # not minimal: refused by the INTEGER parser
                    if Conc(root, d, n).holds(o):
                        v = int.from_bytes(bytes(d), "big", signed=True)
                        if v != want:
                            bad = "accepts the encoding %s as variant %s (value %s)" % (bytes(d).hex(), vi, want)
                        else:
                            hit = True
    ob("enum", "variant %s" % vi, bad is None, bad or "")


def context(ob, E, o, cs, pre, inp, post, ty, av, crate):
    m = re.match(r".*?Context<'_, (\d+), (true|false), (.*)>$", ty)
    val = o.ret.a[2] if is_ok(o) else None
    opt = project(val, ("f", 0)) if val is not None else None
    if opt is None or opt.op != "agg":
        ob("trailing", "value", False, "yields no recognisable optional value")
        return
    b0 = project(mk("deref", inp), ("i", I(0)))
    wt = project(av[1], ("f", 0))
    if opt.a[1] == 0:
        absent = len_zero(o, mk("len", inp)) or o.st.facts.get(b_eq(b0, wt)) is FALSE
        ob("tag", "absent", absent and post is pre, "treats the element as absent although its tag is the wanted one")
        return
    # present
    tk = [c for c in cs if not re.search(r"asn1::Type", c.a[0])]
    rest = [c for c in cs if c not in tk]
    if m.group(2) == "true":
        ok = len(tk) == 1 and strip_at(tk[0].a[2][0]) is pre and tk[0].a[2][1] is av[1] and post is mk("out", tk[0], 0)
        ob("trailing", "explicit element", ok, "does not read exactly one element with the context tag")
        if not ok:
            return
        ok = len(rest) == 1 and fresh_parser(rest[0].a[2][0], tk[0]) and payload(rest[0]) is opt.a[2]
        ob("trailing", "explicit content", ok, "does not read its value from the content of the context element")
        if ok:
            ob("trailing", "explicit end", ended(o, mk("out", rest[0], 0)), "leaves data inside the explicit tag unread")
    else:
        # implicit: the inner type is read directly with the context tag; if the tag is constructed it is treated as explicit
        if not tk:
            ok = len(rest) == 1 and strip_at(rest[0].a[2][0]) is pre and rest[0].a[2][1] is av[1] and post is mk("out", rest[0], 0) and payload(rest[0]) is opt.a[2]
            ob("trailing", "implicit element", ok, "does not read its value with the context tag from the parser")
        else:
            ok = len(tk) == 1 and len(rest) == 1 and fresh_parser(rest[0].a[2][0], tk[0]) and ended(o, mk("out", rest[0], 0))
            ob("trailing", "implicit constructed", ok, "leaves data inside the constructed tag unread")


def primitive(ob, E, o, cs, pre, post, av, name, crate):
    ok = len(cs) == 1 and strip_at(cs[0].a[2][0]) is pre and cs[0].a[2][1] is av[1] and post is mk("out", cs[0], 0)
    ob("primitive", "element", ok, "does not read exactly one element with the wanted tag")
    if not ok:
        return
    sl = content_of(cs[0])
    root = mk("deref", sl)
    val = o.ret.a[2]
    bad = None
    two = [0, 1, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff]
    for n in (0, 1, 2, 3, 16, 17, 200):
        for b0 in range(256) if n else [0]:
            for b1 in two if n > 1 else [0]:
                d = ([b0, b1] + [0x55] * 300)[:n]
                if not Conc(root, d, n).holds(o):
                    continue
                if name == "Null" and n:
                    bad = "accepts NULL with content"
                if name == "Integer" and (n == 0 or n > 1 and (b0 == 0 and b1 < 0x80 or b0 == 255 and b1 >= 0x80)):
                    bad = "accepts an INTEGER that is empty or not minimally encoded (%s)" % bytes(d[:3]).hex()
                if name == "BitString" and (n == 0 or b0 != 0):
                    bad = "accepts a BIT STRING that is empty or has unused bits"
                if name == "ObjectId" and n > 16:
                    bad = "accepts an OBJECT IDENTIFIER longer than its buffer"
    ob("primitive", name + " accepted content", bad is None, bad or "")
    v = project(val, ("f", 0)) if name != "Null" else None
    if name in ("Integer", "OctetString"):
        ok = v is sl or v.op == "ref" and v.a[0] == ("S", sl) and all(e[0] == "r" and e[1] is I(0) for e in v.a[1]) and v.a[2] is mk("len", sl)
        ob("primitive", name + " value", ok, "does not return exactly the content octets")
    elif name == "BitString":
        ok = v.op == "ref" and v.a[0] == ("S", sl) and len(v.a[1]) == 1 and v.a[1][0][0] == "r" and v.a[1][0][1] is I(1) and v.a[2] is sub(mk("len", sl), I(1))
        ob("primitive", name + " value", ok, "does not return exactly the octets after the unused-bits octet")
    elif name == "ObjectId":
        used = project(val, ("f", 1))
        ok = used is mk("len", sl)
        for n in (0, 1, 3, 16):
            d = list(range(1, n + 1))
            b = Conc(root, d, n).bytes_of(v)
            ok = ok and b == d + [0] * (16 - n)
        ob("primitive", name + " value", ok, "does not keep exactly the content octets")


def tag_const(ctx, arch, crate, key):
    rx = re.compile(r"::parse_with_tag$")
    E = ctx.engine(crate, opaque=lambda k, p: bool(rx.search(p)))
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    ty = tyname(key)
    base = re.sub(r"<.*", "", ty)
    name = base.rsplit("::", 1)[-1]
    pre = mk("deref", av[0].a[0][1])
    adt = crate.adts.get(base)
    if name == "Context":
        m = re.match(r".*?Context<'_, (\d+), (true|false), (.*)>$", ty)
        inner = m.group(3)
        cons = m.group(2) == "true" or crate.adts.get(re.sub(r"<.*", "", inner), {}).get("kind") == "struct" and re.sub(r"<.*", "", inner).rsplit("::", 1)[-1] not in UNI
        want = 0x80 | (0x20 if cons else 0) | int(m.group(1))
    elif name == "Option":
        want = 0 if "asn1::Any" in ty else None
    elif name in UNI:
        want = UNI[name]
    elif adt and adt["kind"] == "enum":
        want = 2
    else:
        want = 0x30
    for o in outs:
        c = o.ret
        ok = c.op == "call" and rx.search(c.a[0]) and strip_at(c.a[2][0]) is pre and name in (E.callinfo.get(c, ("", 0, ""))[2] or "")
        g = project(c.a[2][1], ("f", 0)) if ok else None
        ctx.ob("tag", "%s/%s tag" % (ty, arch), ok and (want is None or isint(g) and g.a[0] == want), "%s is not parsed with its DER tag %s" % (ty, want), where)
        ctx.count("tag constants")


def from_bytes(ctx, arch, crate, key):
    E = ctx.engine(crate, opaque=parser_opaque(key, ()))
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    site = "%s/%s" % (tyname(key), arch)
    root = av_root(av[0])
    oks = [o for o in outs if ok_like(o)]
    ctx.ob("trailing", site + " whole input outcomes", oks, "no success outcome recognised", where)
    for o in oks:
        cs = parse_calls(E, o)
        p = strip_at(cs[0].a[2][0]) if len(cs) == 1 else None
        ok = p is not None and p.op == "agg" and p.a[0].endswith("asn1::Parser") and (strip_at(p.a[2]) is root or p.a[2] is av[0])
        ctx.ob("trailing", site + " whole input", ok, "does not parse the value from the start of the input", where)
        if ok:
            ctx.ob("trailing", site + " whole input end", ended(o, mk("out", cs[0], 0)), "accepts data after the outermost value", where)
            ctx.ob("trailing", site + " whole input value", is_ok(o) and o.ret.a[2] is payload(cs[0]), "does not return the parsed value", where)
