"""C26 and C27: what the rustls CryptoProvider offers: suites, signature schemes and keys, key exchange groups."""
import re
from .core import guarded
from .engine import *
from .engine import DEFAULT_OPAQUE
from .q import *
from .rules_ec import av_root
from .rules_der import disc_is
from .rules_hash import boxed
from .rules_tls import Ext, called, sa, rebuild, subterms

OWN = re.compile(r"^<?&?(mut )?graviola::")


class P:
    """the provider, evaluated symbolically from default_provider()"""

    def __init__(self, ctx):
        self.ctx, self.crate = ctx, ctx.r
        self.ext = Ext(ctx.r)
        self.E = ctx.engine(ctx.r, opaque=lambda key, path: bool(DEFAULT_OPAQUE.match(path)) or bool(OWN.match(path)), K=64)
        self.E.eager = False
        keys = [k for k in self.crate.fns if k.endswith("::default_provider") and self.crate.fns[k].get("vis") == "Public"]
        outs, _ = self.E.entry(keys[0])
        self.o = outs[0]
        self.v = self.o.ret
        self.st = self.o.st
        self.where = ctx.locate(self.crate, keys[0])

    def field(self, name):
        return project(self.v, ("f", self.ext.field("CryptoProvider", name)))

    def res(self, t, st=None):
        st = st or self.st
        for _ in range(12):
            if not isinstance(t, T):
                return t
            if t.op == "at":
                t = t.a[0]
            elif t.op == "ref":
                t = self.E.load(st, t.a[0], t.a[1])
            elif t.op == "static":
                g = self.crate.statics.get(t.a[0])
                v = self.E.eval_promoted("static " + t.a[0], g["body"], st) if g and g.get("body") else None
                if v is None:
                    return t
                t = v
            elif t.op == "upd" and t.a[1] == ("f", "vec"):
                t = t.a[2]
            elif t.op == "upd" and t.a[1] == ("f", "ptr"):
                t = t.a[2]
            else:
                return t
        return t

    def list(self, t, st=None):
        t = self.res(t, st)
        return list(t.a[2:]) if t.op == "agg" and t.a[0] == "array" else None

    def sub(self, v, path_end, name, st=None):
        i = self.ext.field(path_end, name)
        return self.res(project(self.res(v, st), ("f", i)), st) if i is not None else None

    def impl(self, adt, trait):
        for i in self.crate.impls:
            if i.get("adt") == adt and str(i.get("trait") or "").endswith("::" + trait):
                return dict(i["items"])
        return {}

    def run(self, key, me=None, st=None):
        """outcomes of a method with self bound to a value"""
        def setup(s, av):
            for k, x in (st or self.st).mem.items():
                s.mem.setdefault(k, x)
            if me is not None and av and av[0].op == "ref":
                s.mem[av[0].a[0]] = me
        outs, av = self.E.entry(key, setup=setup)
        return outs, av


def adt_of(v):
    return str(v.a[0]) if isinstance(v, T) and v.op == "agg" else None


SUITE = re.compile(r"CipherSuite::(TLS13_|TLS_ECDHE_(RSA|ECDSA)_WITH_)(AES_(128|256)_GCM|CHACHA20_POLY1305)_SHA(256|384)$")


def C26(ctx):
    ctx.rule("suite", "every cipher suite offered is made of the hash, HMAC/HKDF/PRF, AEAD (and key size), key exchange and signature schemes its name says, and AES-GCM suites limit the records per key to 2^24.5")
    ctx.rule("verify-table", "every signature verification algorithm verifies with the key type, hash and padding of the identifiers it declares, and every signature scheme is mapped to algorithms of its own hash and padding (its own curve first)")
    ctx.rule("verify-gate", "a certificate or handshake signature is accepted only if parsing the whole public key and verifying the whole signature over the whole message with that key both succeed, and refused otherwise only if one of them fails")
    ctx.rule("sign-scheme", "a signer is returned only for a scheme the peer offered, names that scheme, and signs the whole message with that scheme's own algorithm and the loaded key, returning the whole signature; no signer means no scheme in common")
    ctx.rule("load-key", "a loaded private key is the successful import of the whole document given, of the kind given; loading fails only if every import of that kind fails")
    ctx.rule("public-key", "the public key published for a signing key is the whole SubjectPublicKeyInfo encoding of that key")
    p = P(ctx)
    guarded(ctx, "cipher suites", suites, p)
    guarded(ctx, "verification algorithms", verification, p)
    guarded(ctx, "signing", signing, p)
    guarded(ctx, "key loading", loading, p)
    ctx.done(p.E)


def suites(ctx, p):
    ss = p.list(p.field("cipher_suites"))
    ctx.floor("cipher suites", len(ss or []), 9)
    names = []
    for s in ss or []:
        s = p.res(s)
        kind = p.ext.variant(s)
        inner = p.res(s.a[2])
        ver = "Tls13" if kind == "SupportedCipherSuite::Tls13" else "Tls12"
        common = p.sub(inner, ver + "CipherSuite", "common")
        name = p.ext.variant(p.sub(common, "CipherSuiteCommon", "suite"))
        m = SUITE.match(name or "")

        def ob(ok, why):
            return ctx.ob("suite", str(name), ok, why, "rustls-graviola/src/suites.rs")
        if not ob(m and (ver == "Tls13") == (m.group(1) == "TLS13_"), "not a suite of its protocol version: %s %s" % (kind, name)):
            continue
        names.append(name)
        ctx.count("suites decoded")
        h = m.group(5)

        def hashed(v, what):
            a = adt_of(v) or "?"
            ob(a.startswith("rustls_graviola::") and re.findall(r"\d{3}", a.split("::")[-1]) == [h], "the %s is %s, not of SHA-%s" % (what, a, h))
        hashed(p.sub(common, "CipherSuiteCommon", "hash_provider"), "transcript hash")
        for t, f, w in (("Tls13CipherSuite", "hkdf_provider", "HkdfUsingHmac"), ("Tls12CipherSuite", "prf_provider", "PrfUsingHmac")):
            if t.startswith(ver):
                v = p.sub(inner, t, f)
                if ob((adt_of(v) or "").endswith(w), "the key schedule is %s" % show(v, 3)[:80]):
                    hashed(p.res(v.a[2]), "key schedule's HMAC")
        ae = p.sub(inner, ver + "CipherSuite", "aead_alg")
        a = (adt_of(ae) or "?").split("::")[-1]
        lim = p.sub(common, "CipherSuiteCommon", "confidentiality_limit")
        if m.group(4):
            ob("Gcm" in a and p.res(ae.a[2]) is I(int(m.group(4)) // 8), "the AEAD is %s" % show(ae, 3))
            ob(isint(lim) and 0 < lim.a[0] <= 24 * 10**6, "the AES-GCM confidentiality limit is %s" % show(lim, 2))
        else:
            ob("ChaCha" in a or "Chacha" in a, "the AEAD is %s" % show(ae, 3))
        if ver == "Tls12":
            ob(p.ext.variant(p.sub(inner, "Tls12CipherSuite", "kx")) == "KeyExchangeAlgorithm::ECDHE", "the key exchange is not ECDHE")
            sg = [p.ext.variant(p.res(x)) for x in p.list(p.sub(inner, "Tls12CipherSuite", "sign")) or []]
            want = r"SignatureScheme::(RSA_(PSS|PKCS1)_SHA(256|384|512))$" if m.group(2) == "RSA" else r"SignatureScheme::(ECDSA_NISTP\d+_SHA\d+|ED25519|ED448)$"
            ob(sg and all(re.match(want, str(x)) for x in sg), "signature schemes %s" % sg)
    ctx.ob("suite", "distinct suites", len(set(names)) == len(names) == len(ss or []), "a suite is repeated or not recognised: %s" % names, "rustls-graviola/src/suites.rs")


PK = {
    "06072a8648ce3d020106082a8648ce3d030107": "P256",
    "06072a8648ce3d020106052b81040022": "P384",
    "06092a864886f70d0101010500": "RSA",
    "06032b6570": "ED25519",
}


def pss_params(h, oid, salt):
    return ("06092a864886f70d01010a3034a00f300d060960864801650304020%d0500a11c301a06092a864886f70d010108300d060960864801650304020%d0500a2030201%02x" % (oid, oid, salt))


SIG = {"06032b6570": ("ED25519", None), }
for _h, _o, _l in ((256, 1, 32), (384, 2, 48), (512, 3, 64)):
    SIG["06082a8648ce3d04030%d" % (_o + 1)] = ("ECDSA", _h)
    SIG["06092a864886f70d0101%02x0500" % (10 + _o)] = ("PKCS1", _h)
    SIG[pss_params(_h, _o, _l)] = ("PSS", _h)


def alg_id(p, t):
    """the DER bytes of an AlgorithmIdentifier"""
    t = p.res(t)
    r = []
    for x in subterms(t):
        if x.op == "krel":
            m = re.search(r"mem (\d+) ([0-9a-f]+) ", str(x.a[1]))
            if m:
                off = int.from_bytes(bytes.fromhex(x.a[0])[:8], "little")
                ln = int.from_bytes(bytes.fromhex(x.a[0])[8:16], "little")
                r.append(m.group(2)[2 * off:2 * (off + ln)])
        elif x.op == "bytes":
            r.append(x.a[0].hex())
    return r[0] if len(r) == 1 else None


def classify(ctx, p, v):
    """(key type, padding or scheme, hash) an algorithm declares"""
    its = p.impl(adt_of(v), "SignatureVerificationAlgorithm")
    r = []
    for f, tab in (("public_key_alg_id", PK), ("signature_alg_id", SIG)):
        outs, av = p.run(its[f], v)
        ids = {alg_id(p, o.ret) for o in outs}
        r.append(tab.get(ids.pop()) if len(ids) == 1 else None)
    if None in r:
        return None
    kt, (pad, h) = r
    if (kt, pad) in (("P256", "ECDSA"), ("P384", "ECDSA"), ("RSA", "PSS"), ("RSA", "PKCS1"), ("ED25519", "ED25519")):
        return kt, pad, h
    return None


def verification(ctx, p):
    v = p.res(p.field("signature_verification_algorithms"))
    al = p.list(p.sub(v, "WebPkiSupportedAlgorithms", "all")) or []
    mp = p.list(p.sub(v, "WebPkiSupportedAlgorithms", "mapping")) or []
    ctx.floor("verification algorithms", len(al), 13)
    ctx.floor("signature scheme mappings", len(mp), 9)
    seen = {}
    for a in al:
        a = p.res(a)
        c = classify(ctx, p, a)
        ctx.ob("verify-table", "%s in all" % (c or show(a, 3)[:60],), c is not None, "the identifiers declared are not those of one known algorithm", "rustls-graviola/src/verify.rs")
        if c and c not in seen:
            seen[c] = a
            guarded(ctx, "verify %s" % (c,), verify_one, p, a, c)
    ctx.ob("verify-table", "distinct algorithms", len(seen) == len(al), "two algorithms of one description, or one not recognised", "rustls-graviola/src/verify.rs")
    sch = set()
    for m in mp:
        m = p.res(m)
        s = p.ext.variant(p.res(m.a[2]))
        ls = [p.res(x) for x in p.list(m.a[3]) or []]
        cs = [classify(ctx, p, x) for x in ls]
        for x, c in zip(ls, cs):
            if c and seen.get(c) is not x:
                guarded(ctx, "verify %s for %s" % (c, s), verify_one, p, x, c)
        w = re.match(r"SignatureScheme::(?:ECDSA_NISTP(256|384)_SHA(\d+)|RSA_(PSS|PKCS1)_SHA(\d+)|(ED25519))$", s or "")
        ok = bool(w) and bool(cs) and None not in cs and s not in sch
        if ok and w.group(1):
            ok = cs[0] == ("P" + w.group(1), "ECDSA", int(w.group(2))) and all(c[1:] == ("ECDSA", int(w.group(2))) for c in cs)
        elif ok and w.group(3):
            ok = cs == [("RSA", w.group(3), int(w.group(4)))]
        elif ok:
            ok = cs == [("ED25519", "ED25519", None)]
        sch.add(s)
        ctx.ob("verify-table", "mapping of %s" % s, ok, "mapped to %s" % cs, "rustls-graviola/src/verify.rs")


def key_call(E, c):
    return (E.callinfo.get(c) or (None, None, ""))[2] or str(c.a[1])


def verify_one(ctx, p, v, c):
    kt, pad, h = c
    key = p.impl(adt_of(v), "SignatureVerificationAlgorithm")["verify_signature"]
    outs, av = p.run(key, v)
    E = p.E
    where = ctx.locate(p.crate, key)
    pk, msg, sig = (av_root(x) for x in av[1:4])
    parse = {"P256": r"p256::PublicKey::from_x962_uncompressed$", "P384": r"p384::PublicKey::from_x962_uncompressed$", "RSA": r"rsa::VerifyingKey::from_pkcs1_der$", "ED25519": r"Ed25519VerifyingKey::from_bytes$"}[kt]
    ver = {"ECDSA": r"VerifyingKey::<.*%s>::verify_asn1::<.*Sha%s>$" % (kt, h), "PSS": r"rsa::VerifyingKey::verify_pss_sha%s$" % h, "PKCS1": r"rsa::VerifyingKey::verify_pkcs1_sha%s$" % h, "ED25519": r"Ed25519VerifyingKey::verify$"}[pad]

    def ob(ok, why):
        return ctx.ob("verify-gate", "%s %s SHA-%s" % c, ok, why, where)
    ok_seen = False
    for o in outs:
        ctx.count("signature verification paths")
        ev = [e for e in o.st.ev if e.op == "call"]
        ps = [e for e in ev if re.search(parse, key_call(E, e)) and sa(e.a[2][0]) is pk]
        vs = []
        for e in ev:
            if not re.search(ver, key_call(E, e)) or len(e.a[2]) != 3:
                continue
            k, a1, a2 = (sa(x) for x in e.a[2])
            if k.op == "agg" and len(k.a) == 3:
                k = k.a[2]
            if pad == "ECDSA":
                if not (a1.op == "agg" and len(a1.a) == 3):
                    continue
                a1 = sa(a1.a[2])
                m, s = a1, a2
            else:
                s, m = a1, a2
            if any(k is project(project(q, ("d", 0)), ("f", 0)) for q in ps) and m is msg and s is sig:
                vs.append(e)
        if is_err(o):
            ob(any(disc_is(o, e, 1) for e in ps + vs), "refused although neither parsing the key nor verifying failed")
        else:
            ok_seen = True
            good = any(disc_is(o, e, 0) for e in ps) and any(disc_is(o, e, 0) or o.ret is e for e in vs)
            ob(good, "accepted without the whole key having been parsed and the whole signature verified over the whole message by %s" % ver)
    ob(ok_seen, "nothing is ever accepted")


def scheme_fn(s):
    m = re.match(r"SignatureScheme::(?:ECDSA_NISTP(256|384)_SHA(\d+)|RSA_(PSS|PKCS1)_SHA(\d+)|(ED25519))$", s or "")
    if not m:
        return None
    if m.group(1):
        return r"SigningKey::<.*P%s>::sign_asn1::<.*Sha%s>$" % (m.group(1), m.group(2)), "ECDSA"
    if m.group(3):
        return r"rsa::SigningKey::sign_%s_sha%s$" % (m.group(3).lower(), m.group(4)), "RSA"
    return r"Ed25519SigningKey::sign$", "ED25519"


def signing(ctx, p):
    n = 0
    allset = set()
    for i in p.crate.impls:
        if not str(i.get("trait") or "").endswith("signer::SigningKey"):
            continue
        n += 1
        guarded(ctx, "signing key %s" % i["adt"], signing_key, p, i["adt"], dict(i["items"]), allset)
    ctx.floor("signing key types", n, 4)
    ctx.floor("signature schemes signed with", len(allset), 9)


def inner_key(t, me, payload=None):
    """t is the graviola key held in self: deref of one of self's Arc fields"""
    t = sa(t)
    n = 0
    while t.op in ("prj", "deref", "at"):
        t = t.a[0]
        n += 1
        if n > 8:
            return False
    base = me
    while base.op in ("prj", "deref", "at"):
        base = base.a[0]
    return t is base


def signing_key(ctx, p, adt, its, allset):
    E = p.E
    key = its["choose_scheme"]
    outs, av = p.run(key)
    where = ctx.locate(p.crate, key)
    schemes = av_root(av[1])
    me = av_root(av[0])
    chosen, nones = {}, []

    def ob(ok, why, rule="sign-scheme", at=where):
        return ctx.ob(rule, adt, ok, why, at)
    for o in outs:
        ctx.count("scheme choices")
        r = o.ret
        if r.op == "agg" and r.a[1] == 0:
            nones.append(o)
            continue
        if not ob(r.op == "agg" and r.a[1] == 1, "the choice is not evident: %s" % show(r, 3)[:100]):
            continue
        sg = p.res(r.a[2], o.st)
        it2 = p.impl(adt_of(sg), "Signer")
        if not ob("sign" in it2, "the signer is not evident: %s" % show(sg, 3)[:100]):
            continue
        souts, _ = p.run(it2["scheme"], sg, o.st)
        ss = {x.ret for x in souts}
        if not ob(len(ss) == 1, "the signer's scheme is not evident"):
            continue
        s = ss.pop()
        ob(offered(o, schemes, s) is True, "a signer for %s is returned without the peer having offered it" % show(s, 2))
        cases = [s] if s.op == "agg" else const_elems(s)
        for c in cases or [None]:
            nm = p.ext.variant(c) if c is not None else None
            if ob(scheme_fn(nm), "no such scheme: %s" % show(s, 3)[:80]):
                chosen[nm] = s
                allset.add(nm)
                v = sg if c is s else rebuild(sg, lambda t, c=c: c if t is s else None)
                guarded(ctx, "sign %s" % nm, sign_one, p, adt, v, c, nm, me, o, it2)
    for o in nones:
        for nm, s in chosen.items():
            ob(offered(o, schemes, s) is False or exhausted(E, o, s), "no signer although %s may have been offered" % nm)
    ob(nones and chosen, "not every answer is possible")
    algo = {scheme_fn(nm)[1] for nm in chosen}
    for o in p.run(its["algorithm"])[0]:
        ob(len(algo) == 1 and p.ext.variant(o.ret) == "SignatureAlgorithm::" + sorted(algo)[0], "the key's algorithm is %s" % p.ext.variant(o.ret))
    if "public_key" in its:
        guarded(ctx, "public key of " + adt, public_key, p, adt, its["public_key"])


def const_elems(t):
    """the values an element of a constant array can take"""
    t = sa(t)
    if t.op == "prj" and t.a[1][0] == "i":
        b = sa(t.a[0])
        if b.op == "agg" and b.a[0] == "array":
            return list(b.a[2:])
    return None


def offered(o, schemes, s):
    for t, v in o.st.facts.items():
        if called(t, r"::contains$") and sa(t.a[2][0]) is schemes and sa(t.a[2][1]) is s:
            return v is TRUE or v is I(1)
    return None


def exhausted(E, o, s):
    return s.op == "prj" and s.a[1][0] == "i" and s.a[1][1].op == "itidx"


def sign_one(ctx, p, adt, v, s, nm, me, o0, its):
    E = p.E
    outs, av = p.run(its["sign"], v, o0.st)
    where = ctx.locate(p.crate, its["sign"])
    msg = av_root(av[1])
    rx, kind = scheme_fn(nm)

    def ob(ok, why):
        return ctx.ob("sign-scheme", "%s signing %s" % (adt, nm), ok, why, where)
    some = 0
    for o in outs:
        ctx.count("signing paths")
        cs = [e for e in o.st.ev if e.op == "call" and re.search(r"SigningKey(::<.*>)?::sign\w*(::<.*>)?$", key_call(E, e))]
        good = [e for e in cs if re.search(rx, key_call(E, e))]
        if is_err(o):
            ob(any(disc_is(o, e, 1) for e in good), "signing fails although the operation did not")
            continue
        some += 1
        if not ob(len(cs) == len(good) == 1 and (kind == "ED25519" or disc_is(o, good[0], 0)), "the signature is not made by the scheme's own algorithm: %s" % [key_call(E, e)[-60:] for e in cs]):
            continue
        c = good[0]
        a = [sa(x) for x in c.a[2]]
        ob(inner_key(a[0], me), "not signed with the loaded key")
        if kind == "ECDSA":
            ob(a[1].op == "agg" and [sa(x) for x in a[1].a[2:]] == [msg], "the message signed is not the whole message")
        else:
            ob(a[1 if kind == "ED25519" else 2] is msg, "the message signed is not the whole message")
        val = p.res(o.ret.a[2], o.st) if o.ret.op == "agg" and len(o.ret.a) == 3 else o.ret
        while val.op == "upd" and val.a[1] == ("f", "vec"):
            val = val.a[2]
        val = sa(E.view(o.st, val))
        if kind == "RSA":
            buf = a[1]
            el = [z for z in subterms(buf) if called(z, r"from_elem$")]
            ob(val is mk("out", c, 1) and el and called(el[0].a[2][1], r"modulus_len_bytes$") and inner_key(el[0].a[2][1].a[2][0], me), "the signature returned is not the whole of it: %s" % show(val, 4)[:100])
        elif kind == "ECDSA":
            ob(val is mk("deref", project(project(c, ("d", 0)), ("f", 0))), "the signature returned is not the whole of it: %s" % show(val, 4)[:100])
        else:
            ob(val is c, "the signature returned is not the whole of it: %s" % show(val, 4)[:100])
    ob(some, "signing never succeeds")


def public_key(ctx, p, adt, key):
    E = p.E
    outs, av = p.run(key)
    where = ctx.locate(p.crate, key)
    me = av_root(av[0])

    def ob(ok, why):
        return ctx.ob("public-key", adt, ok, why, where)
    some = 0
    for o in outs:
        ctx.count("public key paths")
        cs = [e for e in o.st.ev if called(e, r"::to_spki_der(::<.*>)?$")]
        r = o.ret
        if r.op == "agg" and r.a[1] == 0:
            ob(any(disc_is(o, e, 1) for e in cs), "no public key although encoding it did not fail")
            continue
        some += 1
        if not ob(r.op == "agg" and len(cs) == 1 and disc_is(o, cs[0], 0) and called(r.a[2], r"SubjectPublicKeyInfoDer.*from$"), "the public key is not the encoding of the key"):
            continue
        c = cs[0]
        k = sa(c.a[2][0])
        if called(k, r"::public_key$"):
            k = sa(k.a[2][0])
        ob(inner_key(k, me), "not the public key of the loaded key")
        ret = project(project(c, ("d", 0)), ("f", 0))
        x = sa(E.view(o.st, r.a[2]).a[2][0])
        ok = False
        if x.op == "out" and x.a[1] == 0 and called(x.a[0], r"::truncate$") and x.a[0].a[2][1] is mk("len", ret):
            b = sa(x.a[0].a[2][0])
            ok = b.op == "upd" and b.a[1] == ("f", "vec") and b.a[2] is mk("out", c, 1)
        else:
            while x.op == "upd" and x.a[1] == ("f", "vec"):
                x = sa(x.a[2])
            ok = x is mk("deref", ret)
        ob(ok, "what is published is not the whole encoding: %s" % show(x, 4)[:120])
    ob(some, "no public key is ever published")


IMPORTS = {
    "Pkcs8": [r"rsa::SigningKey::from_pkcs8_der$", r"SigningKey::<.*P256>::from_pkcs8_der$", r"SigningKey::<.*P384>::from_pkcs8_der$", r"Ed25519SigningKey::from_pkcs8_der$"],
    "Pkcs1": [r"rsa::SigningKey::from_pkcs1_der$"],
    "Sec1": [r"SigningKey::<.*P256>::from_sec1_der$", r"SigningKey::<.*P384>::from_sec1_der$"],
}


def loading(ctx, p):
    E = p.E
    v = p.res(p.field("key_provider"))
    key = p.impl(adt_of(v), "KeyProvider")["load_private_key"]
    outs, av = p.run(key, v)
    where = ctx.locate(p.crate, key)
    doc = av[1]
    names = [x[0] for x in p.ext.v[next(k for k in p.ext.v if k.endswith("::PrivateKeyDer"))]]
    seen = {}
    for o in outs:
        ctx.count("key loading paths")
        d = o.st.facts.get(mk("disc", doc))
        kind = names[d.a[0]] if d is not None and isint(d) and d.a[0] < len(names) else None

        def ob(ok, why):
            return ctx.ob("load-key", str(kind), ok, why, where)
        pay = project(project(doc, ("d", names.index(kind))), ("f", 0)) if kind else None
        cs = [e for e in o.st.ev if re.search(r"SigningKey(::<.*>)?::from_\w+_der$", key_call(E, e))]
        own = [e for e in cs if kind and any(re.search(x, key_call(E, e)) for x in IMPORTS.get(kind, ())) and any(z is pay for z in subterms(e.a[2][0])) and called(mk_inner(e.a[2][0]), r"::secret_\w+_der$")]
        if is_err(o):
            if kind in IMPORTS:
                ob(all(any(re.search(x, key_call(E, e)) and disc_is(o, e, 1) for e in own) for x in IMPORTS[kind]), "loading fails although some import of the kind was not tried or did not fail")
            continue
        r = o.ret.a[2] if o.ret.op == "agg" and len(o.ret.a) == 3 else o.ret
        oks = [e for e in own if disc_is(o, e, 0)]
        val = E.view(o.st, r)
        hit = [e for e in oks if any(z is project(project(e, ("d", 0)), ("f", 0)) for z in subterms(val))]
        if ob(kind is not None and len(hit) == 1 and len(hit) == len(oks), "the key loaded is not the successful import of the whole document: %s" % show(val, 4)[:120]):
            seen.setdefault(kind, set()).add(key_call(E, hit[0]))
    for kind, l in IMPORTS.items():
        ctx.ob("load-key", kind + " kinds", all(any(re.search(x, s) for s in seen.get(kind, ())) for x in l), "not every key type can be loaded: %s" % sorted(seen.get(kind, ())), where)


def mk_inner(t):
    t = sa(t)
    while t.op in ("deref", "at"):
        t = t.a[0]
    return t


# ---------------------------------------------------------------- C27: key exchange

KX = {
    # group: (key generation, accepted derivations of the public key, parsing the peer's share, agreement)
    "X25519": (r"x25519::PrivateKey::new_random$", [(r"x25519::PublicKey::as_bytes$", r"x25519::PrivateKey::public_key$")],
               r"x25519::PublicKey::try_from_slice$", r"x25519::PrivateKey::diffie_hellman$"),
    "secp256r1": (r"p256::PrivateKey::new_random$", [(r"p256::PrivateKey::public_key_uncompressed$",), (r"p256::PublicKey::as_bytes_uncompressed$", r"p256::PrivateKey::public_key$")],
                  r"p256::PublicKey::from_x962_uncompressed$", r"p256::PrivateKey::diffie_hellman$"),
    "secp384r1": (r"p384::PrivateKey::new_random$", [(r"p384::PrivateKey::public_key_uncompressed$",), (r"p384::PublicKey::as_bytes_uncompressed$", r"p384::PrivateKey::public_key$")],
                  r"p384::PublicKey::from_x962_uncompressed$", r"p384::PrivateKey::diffie_hellman$"),
    "MLKEM768": (r"mlkem768::DecapKey::generate$", [(r"mlkem768::EncapKey::as_bytes$", r"mlkem768::DecapKey::encapsulation_key$")],
                 r"mlkem768::EncapKey::from_bytes$", r"mlkem768::DecapKey::decaps$"),
}
HYBRID = {"X25519MLKEM768": (("MLKEM768", 1184, 1088), ("X25519", 32, 32))}
LAYER = re.compile(r"AsRef<.*>>::as_ref$|Deref>::deref$|::as_slice$|::to_vec$|Vec<.*> as .*From<.*>>::from$|Borrow<.*>>::borrow$|::into_vec$|::to_owned$|Into<.*>>::into$|TryFrom<.*>>::try_from$|Ciphertext as .*From<.*>>::from$|Clone>::clone$")


def payload(c, v=0):
    return project(project(c, ("d", v)), ("f", 0))


def whole(p, o, t, target, n=None):
    """t is all of target, perhaps copied or wrapped"""
    for _ in range(16):
        t = sa(t)
        if t is target or sa(target) is t:
            return True
        if t.op == "deref":
            t = t.a[0]
        elif t.op == "ref":
            t = p.E.load(o.st, t.a[0], t.a[1])
        elif t.op == "prj" and t.a[1] in (("f", 0), ("f", "vec"), ("f", "ptr")):
            t = t.a[0]
        elif t.op == "prj" and t.a[1][0] == "r" and isint(t.a[1][1]) and t.a[1][1].a[0] == 0 and t.a[1][2] is mk("len", sa(t.a[0])):
            t = t.a[0]
        elif t.op == "agg" and len(t.a) == 3:
            t = t.a[2]
        elif t.op == "upd" and t.a[1] in (("f", "vec"), ("f", "ptr")):
            t = t.a[2]
        elif t.op == "call" and t.a[2] and LAYER.search(str(t.a[1])):
            t = t.a[2][0]
        else:
            return False
    return False


def un(p, o, t):
    """the value behind pointers and copies of it"""
    for _ in range(8):
        t = sa(t)
        if t.op == "ref":
            t = p.E.load(o.st, t.a[0], t.a[1])
        elif t.op == "deref":
            t = t.a[0]
        elif t.op == "prj" and t.a[1] == ("f", "vec"):
            t = t.a[0]
        elif t.op == "call" and t.a[2] and LAYER.search(str(t.a[1])):
            t = t.a[2][0]
        else:
            break
    return t


def pieces(p, o, t):
    """the parts a byte vector is concatenated from"""
    t = sa(t)
    for _ in range(8):
        if t.op == "ref":
            t = sa(p.E.load(o.st, t.a[0], t.a[1]))
        elif t.op == "prj" and t.a[1] == ("f", "vec"):
            t = sa(t.a[0])
        elif t.op == "call" and t.a[2] and LAYER.search(str(t.a[1])):
            t = sa(t.a[2][0])
        elif t.op == "deref":
            t = sa(t.a[0])
        else:
            break
    if called(t, r"::concat(::<.*>)?$"):
        a = sa(t.a[2][0])
        return [sa(x) for x in a.a[2:]] if a.op == "agg" and a.a[0] == "array" else None
    if t.op == "out" and t.a[1] == 0 and t.a[0].op == "call":
        c = t.a[0]
        if called(c, r"Extend<.*>>::extend(::<.*>)?$|Vec(::<.*>|<.*>)?::extend_from_slice$"):
            q = pieces(p, o, c.a[2][0])
            return None if q is None else q + [sa(c.a[2][1])]
    if called(t, r"vec::Vec(::<.*>|<.*>)?::(with_capacity|new)$"):
        return []
    return [t]


def errkind(p, o, e):
    e = sa(e)
    if called(e, r"From<.*>>::from$") and e.a[2]:
        n = p.ext.variant(e.a[2][0]) or adt_of(sa(e.a[2][0])) or ""
    elif e.op == "agg" and len(e.a) == 3:
        n = p.ext.variant(sa(e.a[2])) or ""
    else:
        n = p.ext.variant(e) or ""
    if n.endswith("InvalidKeyShare"):
        return "share"
    if re.search(r"GetRandomFailed$|FailedToGetRandomBytes$|GetRandomFailed::GetRandomFailed$", n):
        return "random"
    return n or show(e, 3)[:60]


def refuted(o, ln, n):
    """the path cannot be taken by an input of length n"""
    for t, v in o.st.facts.items():
        u = rebuild(t, lambda x: I(n) if x is ln else None)
        if isint(u) and isint(v) and u.a[0] != v.a[0]:
            return True
        if isint(u) and v in (TRUE, FALSE) and u is not v:
            return True
    return any(t is ln and n in s for t, s in o.st.ne.items())


def exactly(o, ln, n):
    """the path is taken by no other length (conditions on a length are comparisons and divisibility: probed on both sides)"""
    return o.st.facts.get(ln) is I(n) or all(refuted(o, ln, k) for k in (0, 1, 32, 1088, 1184, n - 64, n - 32, n - 16, n - 2, n - 1, n + 1, n + 2, n + 16, n + 32, n + 64, 2 * n, 1 << 16, 1 << 32) if k != n)


def span(t, share, ln, n):
    """(lo, hi) of the slice t of the n-byte share"""
    t = sa(t)
    lo, hi = 0, n
    rs = []
    while t is not share and t.op == "prj" and t.a[1][0] == "r":
        rs.append(t.a[1])
        t = sa(t.a[0])
    if t is not share and sa(t) is not sa(share):
        return None
    for r in reversed(rs):
        a, b = (rebuild(x, lambda y: I(n) if y is ln or y.op == "len" and y.a[0] is share else None) for x in r[1:3])
        if not isint(a) or not isint(b):
            return None
        lo, hi = lo + a.a[0], lo + b.a[0]
    return lo, hi


def calls_of(o, rx):
    return [e for e in o.st.ev if e.op == "call" and (called(e, rx))]


class Active:
    """the started exchange of one outcome of start()"""

    def __init__(self, p, o):
        self.p, self.o = p, o
        v = o.ret.a[2]
        for _ in range(6):
            if v.op == "upd" and v.a[1] == ("f", "ptr"):
                v = v.a[2]
            elif v.op == "ref":
                v = p.E.load(o.st, v.a[0], v.a[1])
            else:
                break
        self.v = v
        self.items = p.impl(adt_of(v), "ActiveKeyExchange")

    def run(self, name):
        p, key = self.p, self.items[name]

        def setup(s, av):
            for k, x in self.o.st.mem.items():
                s.mem.setdefault(k, x)
            s.facts.update(self.o.st.facts)
            a = av[0]
            s.mem[a.a[0] if a.op == "ref" else ("S", project(a, ("f", 0)))] = self.v
        outs, av = p.E.entry(key, setup=setup)
        return outs, av, p.ctx.locate(p.crate, key)


def C27(ctx):
    ctx.rule("group", "every key exchange group offered (and every component of a hybrid one) is the algorithm its name says, in the group, the started exchange and the completed one; ML-KEM groups are usable for TLS 1.3 only")
    ctx.rule("start", "starting an exchange makes a new key pair from a successful random generation and publishes exactly the public key of that private key; it fails only if generation fails, as a random failure (a hybrid: post-quantum key first, then the classical one)")
    ctx.rule("complete", "the secret is all of the agreement between the private key of this exchange and the whole peer share, after parsing and agreement both succeed; otherwise, and only otherwise, InvalidKeyShare")
    ctx.rule("hybrid", "a hybrid share is accepted only at its exact length, each component gets exactly its own part, and public key and secret are post-quantum part then classical part; a component's failure is the failure of the whole")
    p = P(ctx)
    gs = p.list(p.field("kx_groups")) or []
    ctx.floor("key exchange groups", len(gs), 4)
    names = []
    for g in gs:
        g = p.res(g)
        n = group_name(p, g)
        names.append(n)
        if ctx.ob("group", str(n), n in KX or n in HYBRID, "an unknown group: %s" % show(g, 2)[:80], "rustls-graviola/src/kx.rs"):
            guarded(ctx, "group %s" % n, hybrid if n in HYBRID else plain, p, g, n)
    ctx.ob("group", "distinct groups", len(set(names)) == len(names), "a group is offered twice: %s" % names, "rustls-graviola/src/kx.rs")
    ctx.done(p.E)


def group_name(p, g):
    its = p.impl(adt_of(g), "SupportedKxGroup")
    outs, _ = p.run(its["name"], g)
    ns = {p.ext.variant(o.ret) for o in outs}
    n = ns.pop() if len(ns) == 1 else None
    return n.split("::")[-1] if n else None


def common(ctx, p, g, n, act, pq):
    """names, versions, and that no finite-field parameters are claimed"""
    its = p.impl(adt_of(g), "SupportedKxGroup")
    w = ctx.locate(p.crate, its["start"])
    outs, _, w2 = act.run("group")
    ctx.ob("group", n + " started", {str(p.ext.variant(o.ret)).split("::")[-1] for o in outs} == {n}, "the started exchange calls itself %s" % [p.ext.variant(o.ret) for o in outs], w2)
    if pq:
        ok = "usable_for_version" in its
        for o in (p.run(its["usable_for_version"], g)[0] if ok else []):
            ok &= only13(p, o)
        ctx.ob("group", n + " versions", ok, "usable for a version other than TLS 1.3", w)
    for it, outs in (("SupportedKxGroup", p.run(its["ffdhe_group"], g)[0] if "ffdhe_group" in its else []), ("ActiveKeyExchange", act.run("ffdhe_group")[0] if "ffdhe_group" in act.items else [])):
        for o in outs:
            ctx.ob("group", "%s %s::ffdhe_group" % (n, it), o.ret.op == "agg" and o.ret.a[1] == 0, "claims finite field parameters", w)


def only13(p, o):
    def is13(x):
        return str(p.ext.variant(sa(x))).endswith("TLSv1_3")
    r = o.ret
    if r is FALSE or r is I(0):
        return True
    if called(r, r"PartialEq(<.*>)?>::eq$"):
        return any(is13(x) for x in r.a[2])
    if r.op == "eq":
        vi = [i for i, x in enumerate(r.a) if isint(x)]
        return bool(vi) and version13(p, r.a[vi[0]].a[0])
    if r is TRUE or r is I(1):
        for t, v in o.st.facts.items():
            if v in (TRUE, I(1)) and called(t, r"PartialEq(<.*>)?>::eq$") and any(is13(x) for x in t.a[2]):
                return True
            if t.op == "disc" and isint(v) and version13(p, v.a[0]):
                return True
    return False


def version13(p, d):
    for t in p.crate.types:
        if t.get("k") == "adt" and str(t.get("path", "")).endswith("::ProtocolVersion"):
            vs = t.get("variants") or []
            if d < len(vs):
                nm = vs[d]["name"] if isinstance(vs[d], dict) else vs[d][0] if isinstance(vs[d], (list, tuple)) else vs[d]
                return nm == "TLSv1_3"
    return False


def is_pub(p, o, t, chains, priv):
    for ch in chains:
        x = t
        for rx in ch:
            x = sa(x)
            for _ in range(6):
                if x.op == "ref":
                    x = sa(p.E.load(o.st, x.a[0], x.a[1]))
                elif x.op == "upd" and x.a[1] == ("f", "vec"):
                    x = sa(x.a[2])
                elif x.op == "prj" and x.a[1] == ("f", "vec"):
                    x = sa(x.a[0])
                elif x.op == "call" and LAYER.search(str(x.a[1])):
                    x = sa(x.a[2][0])
                else:
                    break
            if not called(x, rx):
                x = None
                break
            x = x.a[2][0]
        if x is not None and whole(p, o, x, priv):
            return True
    return False


def plain(ctx, p, g, n):
    gen, chains, parse, dh = KX[n]
    its = p.impl(adt_of(g), "SupportedKxGroup")
    w = ctx.locate(p.crate, its["start"])
    started = 0
    for o in p.run(its["start"], g)[0]:
        ctx.count("start paths")
        gs = calls_of(o, gen)
        if is_err(o):
            ctx.ob("start", n, any(disc_is(o, c, 1) for c in gs) and errkind(p, o, o.ret.a[2]) == "random", "fails with %s although no key generation failed" % errkind(p, o, o.ret.a[2]), w)
            continue
        privs = [payload(c) for c in gs if disc_is(o, c, 0)]
        if not ctx.ob("start", n, len(privs) == 1, "started without exactly one successful key generation", w):
            continue
        started += 1
        act = Active(p, o)
        for q in act.run("pub_key")[0]:
            ctx.ob("start", n + " public key", is_pub(p, q, q.ret, chains, privs[0]), "the published key is %s" % show(q.ret, 5)[:160], w)
        common(ctx, p, g, n, act, n == "MLKEM768")
        agree(ctx, p, n, act, privs[0])
    ctx.ob("start", n + " succeeds", started > 0, "never starts", w)
    if "start_and_complete" in its:
        accept(ctx, p, g, n, its["start_and_complete"])


def agree(ctx, p, n, act, priv):
    _, _, parse, dh = KX[n]
    outs, av, w = act.run("complete")
    peer = av_root(av[1])
    kem = n == "MLKEM768"
    ln = p.E.len_of(av[1])
    oks = 0
    for o in outs:
        ctx.count("complete paths")
        ds = [c for c in calls_of(o, dh) if whole(p, o, c.a[2][0], priv)]
        if kem:
            ds = [c for c in ds if whole(p, o, c.a[2][1], peer)]
            if is_err(o):
                ctx.ob("complete", n, refuted(o, ln, 1088) and errkind(p, o, o.ret.a[2]) == "share", "a ciphertext of the right length may be refused, or not as InvalidKeyShare", w)
                continue
            good = ds
        else:
            ps = [c for c in calls_of(o, parse) if whole(p, o, c.a[2][0], peer)]
            ds = [c for c in ds if any(whole(p, o, c.a[2][1], payload(q)) for q in ps)]
            if is_err(o):
                ctx.ob("complete", n, any(disc_is(o, c, 1) for c in ps + ds) and errkind(p, o, o.ret.a[2]) == "share", "refused although neither parsing nor agreement failed, or not as InvalidKeyShare", w)
                continue
            good = [c for c in ds if disc_is(o, c, 0) and any(disc_is(o, q, 0) and whole(p, o, c.a[2][1], payload(q)) for q in ps)]
        oks += 1
        s = secret_of(o.ret.a[2])
        ctx.ob("complete", n, s is not None and any(whole(p, o, s, c if kem else payload(c)) for c in good), "the secret is %s" % show(o.ret.a[2], 5)[:160], w)
    ctx.ob("complete", n + " succeeds", oks > 0, "never completes", w)


def secret_of(t):
    t = sa(t)
    if called(t, r"SharedSecret as .*From<.*>>::from$"):
        return t.a[2][0]
    return None


def accept(ctx, p, g, n, key):
    """start_and_complete of a single algorithm"""
    gen, chains, parse, dh = KX[n]
    outs, av = p.run(key, g)
    w = ctx.locate(p.crate, key)
    share = av_root(av[1])
    ln = p.E.len_of(av[1])
    for o in outs:
        ctx.count("accept paths")
        ps = [c for c in calls_of(o, parse) if whole(p, o, c.a[2][0], share)]
        if n == "MLKEM768":
            es = [c for c in calls_of(o, r"mlkem768::EncapKey::encaps$") if any(whole(p, o, c.a[2][0], payload(q)) and disc_is(o, q, 0) for q in ps)]
            if is_err(o):
                k = errkind(p, o, o.ret.a[2])
                why = k == "share" and (refuted(o, ln, 1184) or any(disc_is(o, c, 1) for c in ps)) or k == "random" and any(disc_is(o, c, 1) for c in es)
                ctx.ob("complete", n + " accept", why, "refused with %s for no such reason" % k, w)
                continue
            r = {f: p.sub(o.ret.a[2], "CompletedKeyExchange", f, o.st) for f in ("group", "pub_key", "secret")}
            ok = [c for c in es if disc_is(o, c, 0)]
            s = secret_of(r["secret"])
            ctx.ob("complete", n + " accept", s is not None and any(whole(p, o, s, project(payload(c), ("f", 0))) and whole(p, o, r["pub_key"], project(payload(c), ("f", 1))) for c in ok),
                   "not the whole secret and ciphertext of one successful encapsulation to the whole peer key: %s" % show(o.ret, 5)[:160], w)
        else:
            gs = [c for c in calls_of(o, gen)]
            ds = [c for c in calls_of(o, dh) if any(whole(p, o, c.a[2][0], payload(q)) and disc_is(o, q, 0) for q in gs) and any(whole(p, o, c.a[2][1], payload(q)) and disc_is(o, q, 0) for q in ps)]
            if is_err(o):
                k = errkind(p, o, o.ret.a[2])
                ctx.ob("complete", n + " accept", k == "share" and any(disc_is(o, c, 1) for c in ps + ds) or k == "random" and any(disc_is(o, c, 1) for c in gs), "refused with %s for no such reason" % k, w)
                continue
            r = {f: p.sub(o.ret.a[2], "CompletedKeyExchange", f, o.st) for f in ("group", "pub_key", "secret")}
            s = secret_of(r["secret"])
            ctx.ob("complete", n + " accept", s is not None and any(disc_is(o, c, 0) and whole(p, o, s, payload(c)) for c in ds) and any(is_pub(p, o, r["pub_key"], chains, payload(q)) for q in gs),
                   "not this exchange's own public key and secret: %s" % show(o.ret, 5)[:160], w)
        ctx.ob("group", n + " accepted", str(p.ext.variant(r["group"])).endswith("::" + n), "the completed exchange calls itself %s" % show(r["group"], 2), w)


def receiver(p, o, t, of=None):
    """the group value behind a dyn receiver"""
    t = sa(t)
    v = p.res(t, o.st)
    return group_name(p, v) if adt_of(v) and p.impl(adt_of(v), "SupportedKxGroup") else None


def hybrid(ctx, p, g, n):
    (pqn, pqc, pqs), (cln, clc, cls) = HYBRID[n]
    its = p.impl(adt_of(g), "SupportedKxGroup")
    w = ctx.locate(p.crate, its["start"])
    comps = {}

    def comp_calls(o, meth):
        r = {}
        for c in calls_of(o, r"SupportedKxGroup(>)?::%s$" % meth):
            nm = receiver(p, o, c.a[2][0])
            if nm in (pqn, cln):
                r.setdefault(nm, []).append(c)
                comps[nm] = p.res(sa(c.a[2][0]), o.st)
        return r

    def failed(o, cs):
        """the error is that of a component which failed"""
        return any(disc_is(o, c, 1) and whole(p, o, o.ret.a[2], payload(c, 1)) for l in cs.values() for c in l)
    started = 0
    for o in p.run(its["start"], g)[0]:
        ctx.count("start paths")
        cs = comp_calls(o, "start")
        if is_err(o):
            ctx.ob("start", n, failed(o, cs), "fails although no component failed, or with another error", w)
            continue
        ok = {m: [c for c in l if disc_is(o, c, 0)] for m, l in cs.items()}
        if not ctx.ob("start", n, len(ok.get(pqn, [])) == 1 and len(ok.get(cln, [])) == 1, "started without both components started once", w):
            continue
        started += 1
        pq, cl = payload(ok[pqn][0]), payload(ok[cln][0])
        act = Active(p, o)
        common(ctx, p, g, n, act, True)
        for q in act.run("pub_key")[0]:
            ps = pieces(p, q, q.ret)
            ctx.ob("hybrid", n + " public key", ps is not None and len(ps) == 2 and all(called(x, r"ActiveKeyExchange(>)?::pub_key$") and whole(p, q, x.a[2][0], c) for x, c in zip([un(p, q, y) for y in ps], (pq, cl))), "the public key is %s" % show(q.ret, 6)[:160], w)
        hybrid_complete(ctx, p, n, act, pq, cl)
    ctx.ob("start", n + " succeeds", started > 0, "never starts", w)
    key = its["start_and_complete"] if "start_and_complete" in its else None
    if ctx.ob("hybrid", n + " accept", key is not None, "a hybrid share cannot be answered by the default start then complete: the shares have different lengths", w):
        outs, av = p.run(key, g)
        w = ctx.locate(p.crate, key)
        share, ln, tot = av_root(av[1]), p.E.len_of(av[1]), pqc + clc

        def ob(ok, why):
            return ctx.ob("hybrid", n + " accept", ok, why, w)
        oks = 0
        for o in outs:
            ctx.count("accept paths")
            cs = comp_calls(o, "start_and_complete")
            if is_err(o):
                ob(errkind(p, o, o.ret.a[2]) == "share" and refuted(o, ln, tot) or failed(o, cs), "refused although the length is right and no component failed, or with another error")
                continue
            oks += 1
            ok = {}
            for nm, want in ((pqn, (0, pqc)), (cln, (pqc, tot))):
                ok[nm] = [c for c in cs.get(nm, []) if disc_is(o, c, 0) and span(c.a[2][1], share, ln, tot) == want]
            if not ob(exactly(o, ln, tot) and len(ok[pqn]) == 1 and len(ok[cln]) == 1, "a share is accepted without its exact length %d, or without each component having accepted exactly its own part" % tot):
                continue
            done = [payload(ok[m][0]) for m in (pqn, cln)]
            r = {f: p.sub(o.ret.a[2], "CompletedKeyExchange", f, o.st) for f in ("group", "pub_key", "secret")}
            fi = {f: p.ext.field("CompletedKeyExchange", f) for f in r}
            ps = pieces(p, o, r["pub_key"])
            ob(ps is not None and len(ps) == 2 and all(whole(p, o, x, project(c, ("f", fi["pub_key"]))) for x, c in zip(ps, done)), "the public key is %s" % show(r["pub_key"], 5)[:160])
            s = secret_of(r["secret"])
            ss = pieces(p, o, s) if s is not None else None
            ob(ss is not None and len(ss) == 2 and all(called(un(p, o, x), r"SharedSecret::secret_bytes$") and whole(p, o, un(p, o, x).a[2][0], project(c, ("f", fi["secret"]))) for x, c in zip(ss, done)), "the secret is %s" % show(r["secret"], 6)[:160])
            ctx.ob("group", n + " accepted", str(p.ext.variant(r["group"])).endswith("::" + n), "the completed exchange calls itself %s" % show(r["group"], 2), w)
        ob(oks > 0, "nothing is ever accepted")
    for nm in (pqn, cln):
        v = comps.get(nm)
        if ctx.ob("group", "%s component %s" % (n, nm), v is not None, "no such component", w) and nm == pqn:
            guarded(ctx, "group %s" % nm, plain, p, v, nm)


def hybrid_complete(ctx, p, n, act, pq, cl):
    (pqn, pqc, pqs), (cln, clc, cls) = HYBRID[n]
    outs, av, w = act.run("complete")
    peer, ln, tot = av_root(av[1]), p.E.len_of(av[1]), pqs + cls
    CO = r"ActiveKeyExchange(>)?::complete$"

    def ob(ok, why):
        return ctx.ob("hybrid", n + " complete", ok, why, w)
    oks = 0
    for o in outs:
        ctx.count("complete paths")
        cs = calls_of(o, CO)
        if is_err(o):
            ob(errkind(p, o, o.ret.a[2]) == "share" and refuted(o, ln, tot) or any(disc_is(o, c, 1) and whole(p, o, o.ret.a[2], payload(c, 1)) for c in cs), "refused although the length is right and no component failed, or with another error")
            continue
        oks += 1
        good = [[c for c in cs if whole(p, o, c.a[2][0], k) and disc_is(o, c, 0) and span(c.a[2][1], peer, ln, tot) == want] for k, want in ((pq, (0, pqs)), (cl, (pqs, tot)))]
        if not ob(exactly(o, ln, tot) and all(len(x) == 1 for x in good), "completed without the exact length %d, or without each component having completed with exactly its own part" % tot):
            continue
        s = secret_of(o.ret.a[2])
        ss = pieces(p, o, s) if s is not None else None
        ob(ss is not None and len(ss) == 2 and all(called(un(p, o, x), r"SharedSecret::secret_bytes$") and whole(p, o, un(p, o, x).a[2][0], payload(c[0])) for x, c in zip(ss, good)), "the secret is %s" % show(o.ret, 6)[:160])
    ob(oks > 0, "never completes")
    if "hybrid_component" in act.items:
        for o in act.run("hybrid_component")[0]:
            r = o.ret
            ok = r.op == "agg" and (r.a[1] == 0 or r.a[2].op == "agg" and len(r.a[2].a) == 4)
            if ok and r.a[1] == 1:
                gn, pk = sa(r.a[2].a[2]), un(p, o, r.a[2].a[3])
                ok = called(gn, r"ActiveKeyExchange(>)?::group$") and whole(p, o, gn.a[2][0], cl) and called(pk, r"ActiveKeyExchange(>)?::pub_key$") and whole(p, o, pk.a[2][0], cl)
            ctx.ob("hybrid", n + " component", ok, "the component offered is %s" % show(r, 5)[:160], w)
        if ctx.ob("hybrid", n + " component", "complete_hybrid_component" in act.items, "a component is offered which cannot be completed", w):
            outs, av, w = act.run("complete_hybrid_component")
            peer = av_root(av[1])
            for o in outs:
                cs = [c for c in calls_of(o, CO) if whole(p, o, c.a[2][0], cl) and span(c.a[2][1], peer, ln, 1) in ((0, 1),)]
                ok = any(sa(o.ret) is c for c in cs)
                if not ok and o.ret.op == "agg":
                    v = 1 if is_err(o) else 0
                    ok = any(disc_is(o, c, v) and whole(p, o, o.ret.a[2], payload(c, v)) for c in cs)
                ctx.ob("hybrid", n + " component", ok, "completing the component alone gives %s" % show(o.ret, 5)[:160], w)
