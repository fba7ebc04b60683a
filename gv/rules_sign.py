"""C14: what the random source is used for; C17: per-signature secrets."""
import re
from .core import guarded
from .engine import *
from .engine import DEFAULT_OPAQUE
from .q import *
from .rules_ec import archs, av_root, limbs_int, range_ok, nonzero, message_covered, PN, Poly, norm, fld

# hash and HMAC contexts are exported types: their methods stay opaque here (C20 decides what they do)
HASHING = re.compile(r"Hmac::<|hash::\w+Context as|HashContext|HashOutput as core::convert::AsRef|hash::Hash>::(hash|new)$|sha2::Sha\d+Context::|sha3::\w+Context::")


def sign_engine(ctx, crate, extra=None, K=32):
    rx = re.compile(extra) if extra else None
    return ctx.engine(crate, opaque=lambda key, path: bool(DEFAULT_OPAQUE.match(path)) or bool(HASHING.search(path)) or bool(HASHING.search(key)) or bool(rx and rx.search(key)), K=K)


def is_rng(t):
    """a call of the random source: the OS, or anything behind the RandomSource trait"""
    return t.op == "call" and bool(re.search(r"(^|::)fill$", t.a[0])) and ("getrandom" in t.a[0] or "RandomSource" in t.a[0] or "RandomSource" in str(t.a[1]) or len(t.a[2]) == 2)


def os_rng(E, t):
    """reads the operating system generator"""
    if not is_rng(t):
        return False
    if "getrandom" in t.a[0]:
        return True
    seen, st = set(), [strip_at(t.a[2][0])]
    while st:
        s = st.pop()
        if s in seen:
            continue
        seen.add(s)
        if s.op == "phi" and E.phis.get(s):
            st += [strip_at(x) for x in E.phis[s]]
        elif s.op == "out" and s.a[1] == 0 and is_rng(s.a[0]):
            st.append(strip_at(s.a[0].a[2][0]))  # the source after an earlier request
        elif not (s.op == "agg" and str(s.a[0]).endswith("::SystemRandom")):
            return False
    return True


def rng_out(t):
    return t.op == "out" and is_rng(t.a[0]) and t.a[1] == len(t.a[0].a[2]) - 1


def size_of(t):
    """number of elements of a buffer value, if evident"""
    t = strip_at(t)
    if t.op == "rep":
        n = t.a[1]
        return n.a[0] if isinstance(n, T) and isint(n) else n if isinstance(n, int) else None
    if t.op == "upd":
        return size_of(t.a[0])
    if t.op == "bytes":
        return len(t.a[0])
    if t.op == "agg":
        if t.a[0] == "array":
            return len(t.a) - 2
        return size_of(t.a[2]) if len(t.a) == 3 else None
    if t.op == "prj" and t.a[1][0] == "r":
        d = sub(t.a[1][2], t.a[1][1])
        return d.a[0] if isint(d) else None
    if t.op == "out" and is_rng(t.a[0]):
        return size_of(t.a[0].a[2][-1])
    return None


def rng_size(call):
    return size_of(call.a[2][-1])


def failed_rng(o):
    """RNG calls made on this path that are not known to have succeeded"""
    return [t for t in o.st.ev if isinstance(t, T) and is_rng(t) and o.st.facts.get(mk("disc", t)) is not I(0)]


def watch_retries(E):
    """RNG calls not known to have succeeded when a loop goes round again"""
    r = []

    def back(st):
        for t in st.ev:
            if isinstance(t, T) and is_rng(t) and st.facts.get(mk("disc", t)) is not I(0):
                r.append(t)
    E.on_back = back
    return r


def gate_rng(E, o):
    """random bytes that decide a test on this path, from a request not known to have succeeded"""
    r = []
    for f, v in o.st.facts.items():
        if f.op == "call":
            for t in dep_set(E, f):
                if isinstance(t, T) and rng_out(t) and o.st.facts.get(mk("disc", t.a[0])) is not I(0) and t.a[0] in subterms(f):
                    r.append(t.a[0])
    return r


def rng_reach(crate):
    """keys of functions from which a random source is reached"""
    rx = re.compile(r"getrandom::fill|RandomSource(?:>)?::fill|graviola::random::fill")
    callers, direct = {}, set()
    for k, f in crate.fns.items():
        if not f.get("body"):
            continue
        for c in call_paths(f):
            if rx.search(c):
                direct.add(k)
            callers.setdefault(c, set()).add(k)
    r, st = set(direct), list(direct)
    while st:
        for k in callers.get(st.pop(), ()):
            if k not in r:
                r.add(k)
                st.append(k)
    return r


def public_rng_users(crate):
    """exported functions that consume randomness"""
    reach = rng_reach(crate)
    out = []
    for k in sorted(reach):
        f = crate.fns[k]
        if not f.get("local") or f.get("vis") != "Public" or "{closure" in k or "::tests::" in k or "::test::" in k:
            continue
        a = f.get("self_adt")
        if a and a not in {p for _, p, _ in crate.exports}:
            continue
        out.append(k)
    return out


# ---------------------------------------------------------------- C14
# bytes of OS randomness a freshly generated secret is made of, by exported type
SECRETS = ((r"p256::(Static)?PrivateKey$", 32), (r"p384::(Static)?PrivateKey$", 48), (r"x25519::(Static)?PrivateKey$", 32), (r"ed25519::Ed25519SigningKey$", 32),
           (r"ecdsa::SigningKey<.*P256>$", 32), (r"ecdsa::SigningKey<.*P384>$", 48), (r"mlkem768::DecapKey$", 64))


def C14(ctx):
    ctx.rule("rng-failure", "no function that consumes randomness succeeds on a path where a call of the random source is not known to have succeeded")
    ctx.rule("rng-system", "the random source used is the operating system's (or, for ECDSA nonces, the DRBG seeded from it: C17)")
    ctx.rule("rng-key", "a freshly generated private key consists of, or is computed from, every byte of one successful OS random fill of the full key size")
    ctx.rule("rng-fill", "a fill reported successful has written every byte of the caller's buffer with generator output")
    for arch, crate in archs(ctx):
        us = public_rng_users(crate)
        ctx.floor("exported functions consuming randomness (%s)" % arch, len(us), 20)
        for k in us:
            guarded(ctx, k + "/" + arch, rng_user, arch, crate, k)
        for k in sources(crate):
            guarded(ctx, k + "/" + arch, source, arch, crate, k)
    guarded(ctx, "rustls", rustls_rng)


def sources(crate):
    """the non-test implementations of the random source trait, and the exported fill"""
    r = [k for k, f in crate.fns.items() if f.get("local") and f.get("body") and re.search(r" as .*RandomSource>::fill$", k) and "::tests::" not in k]
    r += [k for k, f in crate.fns.items() if f.get("local") and f.get("body") and re.search(r"::random::fill$", k)]
    return sorted(r)


def chunk_whole(E, o, idx, root):
    """does the range/index element cover all of root over a completed loop"""
    lo = idx[1]
    if lo.op == "itidx":
        k = E.iters.get(lo.a[0])
        return bool(k) and k[0] in ("chunks", "iter") and ptr_whole(E, k[1], root)
    if lo.op == "phi":
        ki = E.phis.get(lo, {})
        hi = idx[2] if idx[0] == "r" else add(lo, I(1))
        ln = mk("len", root.a[0])
        done = o.st.facts.get(b_lt(lo, ln)) is FALSE or o.st.facts.get(mk("eq", lo, ln)) is TRUE
        return done and I(0) in ki and all(y is I(0) or y is hi or sub(y, lo) is sub(hi, lo) for y in ki)
    return False


def cursor_whole(E, o, content, runs, root):
    """consecutive runs [cursor, next) starting at 0, each leaving the cursor at its end, until the cursor reaches the end"""
    ln = mk("len", root.a[0])
    ends = lambda x: (x.a[1][1], x.a[1][2] if x.a[1][0] == "r" else add(x.a[1][1], I(1)))
    for x in runs:
        p = ends(x)[0]
        if x.a[0] is not content or p.op != "phi":
            continue
        if not (o.st.facts.get(b_lt(p, ln)) is FALSE or o.st.facts.get(mk("eq", p, ln)) is TRUE):
            continue
        his = set()
        for y in runs:
            lo, hi = ends(y)
            if lo is not (I(0) if y.a[0] is root else p if y.a[0] is content else None):
                break
            his.add(hi)
        else:
            ki = list(E.phis.get(p, ()))
            if I(0) in ki and all(q is I(0) or q is p or q in his for q in ki):
                return True
    return False


def written(E, o, content, root, good):
    """every byte of root has been overwritten by a value satisfying good, at outcome o"""
    if content is root:
        return False
    if good(content):
        return True
    if content.op == "phi":
        ok = False
        runs = []
        for x in E.phis.get(content, ()):
            if x is root or x is content:
                continue
            if x.op == "upd" and x.a[1][0] in ("r", "i") and good(x.a[2]):
                ok = ok or chunk_whole(E, o, x.a[1], root)
                runs.append(x)
                continue
            return False
        return ok or cursor_whole(E, o, content, runs, root)
    if content.op == "upd" and content.a[1][0] == "r":
        e = content.a[1]
        return e[1] is I(0) and e[2] is mk("len", root.a[0]) and good(content.a[2])
    return False


def source(ctx, arch, crate, key):
    E = sign_engine(ctx, crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    out = av[-1]
    root = av_root(out)
    self_ = av_root(av[0]) if len(av) == 2 and av[0].op == "ref" else None
    oks = [o for o in outs if not is_err(o)]
    ctx.ob("rng-fill", site + " outcomes", oks and all(is_ok(o) for o in oks), "no recognisable success", where)
    for o in oks:
        ctx.count("fill success paths")
        c = E.content(o.st, ("S", root.a[0]))

        def good(x):
            if rng_out(x):
                return True
            if x.op == "prj" and x.a[1][0] == "r":
                x = x.a[0]
            # generated by an HMAC of the generator's own state
            return self_ is not None and x.op == "deref" and bool(covers(E, x, self_)) and depends(E, x, lambda t: t.op == "call" and bool(re.search(r"Hmac::<.*>::finish$", t.a[0])))
        ctx.ob("rng-fill", site, written(E, o, c, root, good), "a path to success leaves part of the buffer not written by the generator (%s)" % show(c, 4)[:200], where)


def payload_of(o):
    return o.ret.a[2] if is_ok(o) else o.ret


def rng_user(ctx, arch, crate, key):
    at = arg_tys(crate, key)
    if len(at) == 1 and at[0]["s"].endswith("::KeySize"):
        # one run per key size, hashing-free: everything stays distinguishable
        ks = [p for p in crate.adts if p.endswith("::KeySize")][0]
        for i in range(len(crate.adts[ks]["variants"])):
            E = ctx.engine(crate)
            again = watch_retries(E)
            rng_user2(ctx, arch, crate, key, E, again, *E.entry(key, args=[agg(ks, i)]))
        return
    E = sign_engine(ctx, crate, extra=r"rsa_priv::RsaPrivateKey::(raw_sign|sign)|fixed_to_asn1")
    again = watch_retries(E)
    rng_user2(ctx, arch, crate, key, E, again, *E.entry(key))


def rng_user2(ctx, arch, crate, key, E, again, outs, av):
    ctx.done(E)
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    oks = [o for o in outs if not is_err(o)]
    ctx.ob("rng-failure", site + " outcomes", oks, "no success outcome", where)
    ctx.ob("rng-failure", site + " retries", not again, "a loop goes round again although the random source is not known to have succeeded: %s" % (show(again[0], 3) if again else ""), where)
    rt = ret_ty(crate, key)["s"]
    m = re.match(r"core::result::Result<(.*), [\w:]+>$", rt)
    want = None
    for rx, n in SECRETS:
        if m and re.search(rx, m.group(1)):
            want = n
    if not any(isinstance(t, T) and is_rng(t) for o in oks for t in o.st.ev):
        # reached only through callees kept opaque, or not at all on success paths
        calls = [t for o in oks for t in dep_set(E, o.ret) | set(o.st.facts) | set(o.st.ev) if isinstance(t, T) and t.op == "call" and (t.a[1] in rng_reach(crate) or is_rng(t))] or [
            t for o in oks for f in o.st.facts for t in dep_set(E, f) if isinstance(t, T) and is_rng(t)]
        ctx.ob("rng-failure", site + " used", calls, "a function meant to consume randomness succeeds without doing so", where)
    own = any("RandomSource" in t["s"] for t in arg_tys(crate, key))
    for o in oks:
        ctx.count("success paths of randomness consumers")
        bad = failed_rng(o) or gate_rng(E, o)
        ctx.ob("rng-failure", site, not bad, "success although the random source is not known to have succeeded: %s" % (show(bad[0], 3) if bad else ""), where)
        if want:
            v = E.view(o.st, payload_of(o))
            src = {t for t in dep_set(E, v) if isinstance(t, T) and rng_out(t) and o.st.facts.get(mk("disc", t.a[0])) is I(0)}
            sys_ = [t for t in src if os_rng(E, t.a[0]) or own]
            ctx.ob("rng-system", site, sys_ and len(sys_) == len(src), "the key is not taken from the operating system generator", where)
            full = [t for t in sys_ if (rng_size(t.a[0]) or 0) == want and (int_parts(E, v, t) in (None, set(range(want))) or covers_whole(E, v, t))]
            ctx.ob("rng-key", site, full, "the key does not use all %d bytes of a successful random fill" % want, where)
            if re.search(r"p256|p384|P256|P384", m.group(1)):
                num = unwrap1(v)
                ctx.ob("rng-key", site + " rejection", any(raw_bytes(E, num, t) == set(range(want)) for t in sys_), "the private scalar is not exactly the random bytes (it must be chosen by rejection, not reduction)", where)
                c, order = ("p256", PN["p256"][3]) if want == 32 else ("p384", PN["p384"][3])
                ctx.ob("rng-key", site + " range", num in range_ok(E, o, lambda x: x is num, order, c) and nonzero(E, o, num), "the private scalar is not required to be in [1, n-1]", where)
            ctx.count("generated keys")


def rustls_rng(ctx):
    crate = ctx.r
    ks = [k for k, f in crate.fns.items() if f.get("local") and f.get("body") and re.search(r" as .*SecureRandom>::fill$", k)]
    ctx.floor("rustls SecureRandom implementations", len(ks), 1)
    for k in ks:
        E = ctx.engine(crate)
        outs, av = E.entry(k)
        ctx.done(E)
        where = ctx.locate(crate, k)
        root = av_root(av[1])
        oks = [o for o in outs if not is_err(o)]
        ctx.ob("rng-fill", k + " outcomes", oks and any(is_err(o) for o in outs), "no recognisable outcomes", where)
        for o in oks:
            c = E.content(o.st, ("S", root.a[0]))
            good = lambda x: x.op == "out" and x.a[0].op == "call" and bool(re.search(r"(random|getrandom)::fill$", x.a[0].a[0])) and o.st.facts.get(mk("disc", x.a[0])) is I(0)
            ctx.ob("rng-fill", k, written(E, o, c, root, good), "success without the whole buffer having been filled by graviola's generator", where)


# ---------------------------------------------------------------- C17
CURVES = {"P256": ("p256", 32, 4), "P384": ("p384", 48, 6)}
HLEN = {"Sha256": 32, "Sha384": 48, "Sha512": 64}


def C17(ctx):
    ctx.rule("ecdsa-nonce", "the nonce k is the value of a generator whose seed covers the whole private key, the message representative and 16 bytes from a successful OS random fill; k is in [1, n-1] by rejection (never reduced)")
    ctx.rule("ecdsa-sign", "r depends on k and is not zero, s = (e + r d)/k with e computed from every message part and d the key, and nothing is written on a failing path")
    ctx.rule("hmac-drbg", "the nonce generator is instantiated and advanced as HMAC_DRBG: K and V are re-keyed over all seed inputs with both domain bytes, every output block is a fresh V = HMAC(K, V), and the state is updated after each request")
    ctx.rule("eddsa-nonce", "Ed25519: r = hash of the whole secret prefix and the whole message; k = hash of R, the key's own public key and the whole message; S = r + k s")
    ctx.rule("pss-salt", "every PSS signature encodes a salt of the hash's length taken whole from a successful OS random fill")
    for arch, crate in archs(ctx):
        n = 0
        for C, (c, nb, nl) in CURVES.items():
            for k in sorted(crate.fns):
                m = re.match(r"graviola::high::ecdsa::SigningKey::<.*::%s>::(\w+)::<.*::(Sha\d+)>$" % C, k)
                f = crate.fns[k]
                if not m or not f.get("body") or f.get("vis") != "Public" or "sign" not in m.group(1):
                    continue
                n += 1
                guarded(ctx, k + "/" + arch, ecdsa_sign, arch, crate, k, c, nb, nl, m.group(2))
        ctx.floor("ECDSA signing instances (%s)" % arch, n, 12)
        for c, nb, nl in CURVES.values():
            for k in keygens(crate, c):
                guarded(ctx, k + "/" + arch, keygen_contract, arch, crate, k, c, nb, "ecdsa-nonce")
        ds = [k for k in sources(crate) if "SystemRandom" not in k and "<" in k]
        ctx.floor("DRBG instances (%s)" % arch, len(ds), 3)
        for k in ds:
            guarded(ctx, k + "/" + arch, drbg_fill, arch, crate, k)
            a = crate.fns[k].get("self_adt")
            t = re.match(r"<(.*) as ", k).group(1)
            news = [q for q, f in crate.fns.items() if f.get("body") and f.get("self_adt") == a and ret_ty(crate, q)["s"] == t]
            ctx.floor("constructors of %s (%s)" % (t, arch), len(news), 1)
            for q in news:
                guarded(ctx, q + "/" + arch, drbg_new, arch, crate, q)
        eds = [k for k in method_keys(crate, r"ed25519::Ed25519SigningKey$") if ret_ty(crate, k)["s"] == "[u8; 64]"]
        ctx.floor("Ed25519 signing functions (%s)" % arch, len(eds), 1)
        for k in eds:
            guarded(ctx, k + "/" + arch, ed_sign, arch, crate, k)
        guarded(ctx, "ed25519 key expansion/" + arch, ed_expand, arch, crate)
        ps = [k for k in method_keys(crate, r"high::rsa::SigningKey$") if "pss" in k.rsplit("::", 1)[1]]
        ctx.floor("PSS signing functions (%s)" % arch, len(ps), 3)
        for k in ps:
            guarded(ctx, k + "/" + arch, pss_sign, arch, crate, k)


def be_number(c, lo, nb):
    """the limb array whose big-endian encoding occupies bytes lo..lo+nb of c"""
    src = None
    n = nb // 8
    for j in range(n):
        x = project(c, ("r", I(lo + 8 * j), I(lo + 8 * j + 8)))
        if x.op != "to_be" or x.a[0] not in (8, I(8)):
            return None
        y = x.a[1]
        if y.op != "prj" or y.a[1] != ("i", I(n - 1 - j)):
            return None
        if src is not None and y.a[0] is not src:
            return None
        src = y.a[0]
    return src


def scalar_poly(t, order, bits, memo):
    """numbers mod n: generic Montgomery routines with the order as modulus; anything else is an atom"""
    t = norm(t)
    if t in memo:
        return memo[t]
    R = pow(2, bits, order)
    Ri = pow(R, -1, order)
    v = limbs_int(t)
    r = None
    if v is not None:
        r = Poly.const(order, v)
    elif t.op == "out" and t.a[0].op == "call" and t.a[1] == 0:
        a = t.a[0].a[2]
        nm = t.a[0].a[0].rsplit("::", 1)[-1]
        md = limbs_int(norm(a[-1])) if a else None
        g = lambda i: scalar_poly(a[i], order, bits, memo)
        if nm == "bignum_montmul" and md == order:
            r = (g(1) * g(2)).scale(Ri)
        elif nm == "bignum_demont" and md == order:
            r = g(1).scale(Ri)
        elif nm in ("bignum_modadd",) and md == order:
            r = g(1) + g(2)
        elif nm in ("bignum_modsub",) and md == order:
            r = g(1) - g(2)
    if r is None:
        r = Poly.atom(order, t)
    memo[t] = r
    return r


def ecdsa_sign(ctx, arch, crate, key, c, nb, nl, H):
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    fixed = "sign_asn1" not in key
    gens = keygens(crate, c)
    E = sign_engine(ctx, crate, K=64, extra="|".join("^%s$" % re.escape(g) for g in gens) or None if fixed else r"ecdsa::SigningKey::<.*>::sign::<")
    outs, av = E.entry(key)
    ctx.done(E)
    self_, msg, sig = av
    rs, rk = av_root(sig), av_root(self_)
    oks = [o for o in outs if not is_err(o)]
    ctx.ob("ecdsa-sign", site + " outcomes", oks and any(is_err(o) for o in outs), "signing must be able to fail and to succeed", where)
    for o in outs:
        cont = E.content(o.st, ("S", rs.a[0]))
        if is_err(o):
            if fixed:
                ctx.ob("ecdsa-sign", site + " failing path", not covers(E, cont, rk), "a failing path leaves data computed with the key in the signature buffer", where)
            continue
        ctx.count("ECDSA signing success paths")
        if not fixed:
            # the signature comes from `sign` alone
            inner = [t for t in o.st.ev if isinstance(t, T) and t.op == "call" and re.search(r"::sign$", t.a[0]) and "SigningKey" in t.a[0]]
            good = [t for t in inner if o.st.facts.get(mk("disc", t)) is I(0) and covers_whole(E, t.a[2][1], av_root(msg)) and covers(E, t.a[2][0], rk)]
            ctx.ob("ecdsa-sign", site + " delegates", good and len(good) == len(inner), "an ASN.1 signature is produced other than by converting a fixed-length one made over the whole message", where)
            ctx.ob("ecdsa-sign", site + " key use", not [t for t in dep_set(E, cont) if t is rk and not any(True for _ in good)], "", where)
            continue
        val = cont
        r, s = be_number(val, 0, nb), be_number(val, nb, nb)
        ctx.ob("ecdsa-sign", site + " encoding", r is not None and s is not None, "the signature is not the encoding of two whole numbers (%s)" % show(val, 3), where)
        if r is None or s is None:
            continue
        r, s = norm(r), norm(s)
        order = PN[c][3]
        # k: inverted in s
        inv = [t for t in dep_set(E, s) if isinstance(t, T) and t.op == "out" and t.a[0].op == "call" and t.a[0].a[0].endswith("::bignum_modinv") and t.a[1] == 0 and limbs_int(norm(t.a[0].a[2][2])) == order]
        ks = {norm(t.a[0].a[2][1]) for t in inv}
        ctx.ob("ecdsa-sign", site + " k", len(ks) == 1, "s is not computed with the inverse of exactly one nonce", where)
        if len(ks) != 1:
            continue
        k = ks.pop()
        ki = inv[0]
        memo = {r: Poly.atom(order, r), norm(ki): Poly.atom(order, norm(ki))}
        ps = scalar_poly(s, order, nb * 8, memo)
        J = Poly.atom(order, norm(ki))
        # s - J*r*d must leave J*e with a single message-dependent atom e
        d = [a for m in ps.d for a in m if covers(E, a, rk) and a not in (r, norm(ki)) and not depends(E, a, lambda t: is_rng(t))]
        e = [a for m in ps.d for a in m if message_covered(E, a, msg) and a not in (r, norm(ki))]
        ok = len(set(d)) == 1 and len(set(e)) == 1
        if ok:
            want = J * (Poly.atom(order, e[0]) + Poly.atom(order, r) * Poly.atom(order, d[0]))
            ok = not (ps - want).d
        ctx.ob("ecdsa-sign", site + " equation", ok, "s is not (e + r d)/k for the key, the whole message and the r that is output", where)
        if ok:
            ctx.ob("ecdsa-sign", site + " d", whole_number(E, d[0], rk, nl), "d is not the whole private key", where)
            hs = [t for t in dep_set(E, e[0]) if isinstance(t, T) and t.op == "call" and re.search(r"::finish$|Hash>::hash$", t.a[0])]
            ctx.ob("ecdsa-sign", site + " e", hs, "e is not computed from a hash", where)
        ctx.ob("ecdsa-sign", site + " r != 0", nonzero(E, o, r), "a signature with r = 0 is not excluded", where)
        made = nonce_calls(E, k, gens)
        if made:
            # the key generator's contract (every success is the raw bytes of one successful request, in [1, n-1]) is decided below
            src = [(kk, g) for kk, g in made]
            ctx.count("nonces taken from a key generator")
        else:
            # range of k, by rejection
            ctx.ob("ecdsa-nonce", site + " k < n", k in range_ok(E, o, lambda x: x is k, order, c), "k is not required to be below the group order", where)
            ctx.ob("ecdsa-nonce", site + " k != 0", nonzero(E, o, k), "k = 0 is not excluded", where)
            raw = [t for t in dep_set(E, k) if isinstance(t, T) and rng_out(t)]
            src = [(t, t.a[0]) for t in raw if not os_rng(E, t.a[0]) and raw_bytes(E, k, t) == set(range(nb)) and size_of(t) == nb]
            ctx.ob("ecdsa-nonce", site + " k bytes", len(src) == 1, "k is not made of exactly the %d bytes of one generator request" % nb, where)
        for t, g in src:
            if made:
                ctx.ob("ecdsa-sign", site + " r from k", same_nonce(E, r, k, t, nl), "r does not depend on all of the nonce used in s", where)
            else:
                ctx.ob("ecdsa-sign", site + " r from k", int_parts(E, r, t) in (None, set(range(nb))) and covers(E, r, t), "r does not depend on all of the nonce used in s", where)
                ctx.ob("ecdsa-nonce", site + " request", o.st.facts.get(mk("disc", g)) is I(0), "the generator request is not known to have succeeded", where)
            st = strip_at(g.a[2][0])
            got = absorbed(E, st)
            ctx.ob("ecdsa-nonce", site + " key", ok and number_in(d[0], nl, got), "some bytes of the private key do not reach the nonce generator's seed", where)
            ctx.ob("ecdsa-nonce", site + " message", ok and number_in(e[0], nl, got), "some bytes of the message representative e do not reach the nonce generator's seed", where)
            sysr = {x[0] for x in got if isinstance(x, tuple) and isinstance(x[0], T) and rng_out(x[0]) and os_rng(E, x[0].a[0])}
            full = [x for x in sysr if o.st.facts.get(mk("disc", x.a[0])) is I(0) and len([1 for y in got if y[0] is x]) >= 16]
            ctx.ob("ecdsa-nonce", site + " random", full and len(full) == len(sysr), "the nonce generator is not seeded with 16 bytes of a successful OS random fill", where)


def keygens(crate, c):
    """functions drawing a private key of curve c from a given random source"""
    r = []
    for k, f in crate.fns.items():
        if not f.get("local") or not f.get("body") or "::test" in k:
            continue
        at = arg_tys(crate, k)
        if len(at) == 1 and at[0]["s"].startswith("&mut dyn ") and "RandomSource" in at[0]["s"] and re.match(r"core::result::Result<graviola::mid::%s::\w*PrivateKey, " % c, ret_ty(crate, k)["s"]):
            r.append(k)
    return sorted(r)


def nonce_calls(E, k, gens):
    """[(key number, generator call)] when k is the number in the success payload of key generator calls, on every path"""
    r = []
    for x in leaves(E, k):
        b, pr = x, []
        while b.op == "prj" and b.a[1][0] in ("f", "d"):
            pr.append(b.a[1][0])
            b = b.a[0]
        if not (b.op == "call" and (b.a[1] in gens or b.a[0] in gens)) or "d" not in pr and len(pr) < 2:
            return []
        r.append((x, b))
    return r


def leaves(E, k, seen=None):
    """the values a joined value can have"""
    seen = set() if seen is None else seen
    if k in seen:
        return []
    seen.add(k)
    if k.op == "phi" and E.phis.get(k):
        return [z for y in E.phis[k] for z in leaves(E, y, seen)]
    if k.op == "prj" and k.a[1][0] in ("f", "d"):
        ls = leaves(E, k.a[0], seen)
        return [project(y, k.a[1]) for y in ls] if ls and ls != [k.a[0]] else [k]
    return [k]


def same_nonce(E, r, k, t, nl):
    """r is computed from all of k (the joined value, or value by value)"""
    def whole(y, z):
        if not covers(E, y, z):
            return False
        p = int_parts(E, y, z)
        return p is None or p >= set(range(nl))
    if t is not k and whole(r, k):
        return True
    ks, rs = leaves(E, k), leaves(E, r)
    return any(whole(y, t) for y in rs) and all(any(whole(y, z) for z in ks) for y in rs)


def keygen_contract(ctx, arch, crate, key, c, nb, rule):
    E = sign_engine(ctx, crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    order = PN[c][3]
    oks = [o for o in outs if is_ok(o)]
    ctx.ob(rule, site + " outcomes", oks and all(is_ok(o) or is_err(o) for o in outs), "no recognisable outcomes", where)
    for o in oks:
        num = unwrap1(E.view(o.st, payload_of(o)))
        src = [t for t in dep_set(E, num) if isinstance(t, T) and rng_out(t) and o.st.facts.get(mk("disc", t.a[0])) is I(0)]
        ctx.ob(rule, site + " bytes", len(src) == 1 and raw_bytes(E, num, src[0]) == set(range(nb)) and size_of(src[0]) == nb, "the number is not exactly the %d bytes of one successful generator request (it must be chosen by rejection, not reduction)" % nb, where)
        ctx.ob(rule, site + " range", num in range_ok(E, o, lambda x: x is num, order, c) and nonzero(E, o, num), "the number is not required to be in [1, n-1]", where)
        ctx.count("nonce generator success paths")


def absorbed(E, st):
    """the bytes (symbol, offset) fed to HMAC in computing st"""
    got = set()
    for t in dep_set(E, st):
        if isinstance(t, T) and t.op == "call" and re.search(r"Hmac::<.*>::update$", t.a[0]):
            for x in bytes_of(deref_at(t.a[2][1])) or ():
                if isinstance(x, tuple):
                    got.add(x)
    return got


def number_in(num, nl, got):
    num = strip_at(num)
    return all((project(num, ("i", I(i))), j) in got for i in range(nl) for j in range(8))


def bytes_of(t):
    """the bytes of a buffer of constant size: ints or (term, offset); None if not evident"""
    t = strip_at(t)
    if t.op == "upd" and t.a[1][0] in ("r", "i"):
        b = bytes_of(t.a[0])
        if b is None:
            return None
        e = t.a[1]
        lo = e[1]
        hi = e[2] if e[0] == "r" else add(lo, I(1))
        if not isint(lo) or not isint(hi) or hi.a[0] > len(b):
            return None
        if e[0] == "i":
            b[lo.a[0]] = (t.a[2], 0) if not isint(t.a[2]) else t.a[2].a[0]
            return b
        w = bytes_of(t.a[2])
        if w is None or len(w) != hi.a[0] - lo.a[0]:
            w = [(t.a[2], j) for j in range(hi.a[0] - lo.a[0])]
        b[lo.a[0]:hi.a[0]] = w
        return b
    if t.op == "prj" and t.a[1][0] == "r":
        lo, hi = t.a[1][1], t.a[1][2]
        if not isint(lo) or not isint(hi):
            return None
        b = bytes_of(t.a[0])
        if b is None:
            b = [(t.a[0], j) for j in range(hi.a[0])]
        return b[lo.a[0]:hi.a[0]]
    if t.op in ("to_be", "to_le"):
        n = t.a[0] if isinstance(t.a[0], int) else t.a[0].a[0]
        return [(t.a[1], n - 1 - j if t.op == "to_be" else j) for j in range(n)]
    if t.op == "rep":
        n = size_of(t)
        if n is None or n > 1 << 16:
            return None
        return [t.a[0].a[0] if isint(t.a[0]) else (t.a[0], 0)] * n
    if t.op == "bytes":
        return list(t.a[0])
    if t.op == "agg" and t.a[0] == "array":
        return [x.a[0] if isint(x) else (x, 0) for x in t.a[2:]]
    n = size_of(t)
    if n is not None and n <= 1 << 16:
        return [(t, j) for j in range(n)]
    return None


def limb_reads(E, t, rk):
    """constant limb indices (innermost) of the key's number read by t; None for the whole of it"""
    idx = set()
    for x in dep_set(E, t):
        if isinstance(x, T) and x.op == "prj" and x.a[1][0] == "i" and isint(x.a[1][1]):
            b, pr = base_of(x)
            if b is rk and all(p[0] == "f" for p in pr[:-1]):
                idx.add(x.a[1][1].a[0])
    return idx


def whole_number(E, a, rk, nl):
    """a is the key's number itself (a field chain of the key, or all its limbs)"""
    b, pr = base_of(strip_at(a))
    if b is rk and pr and all(p[0] == "f" for p in pr):
        return True
    return limb_reads(E, a, rk) >= set(range(nl))


def raw_bytes(E, k, root):
    """byte positions of root that make up k, every byte once, with nothing but conversions in between; None if k is computed some other way"""
    pos = []
    if k.op != "upd" and not (k.op == "agg" and k.a[0] == "array"):
        return None
    t = k
    vals = {}
    while t.op == "upd" and t.a[1][0] == "i" and isint(t.a[1][1]):
        vals.setdefault(t.a[1][1].a[0], t.a[2])
        t = t.a[0]
    if t.op == "agg":
        for i, x in enumerate(t.a[2:]):
            vals.setdefault(i, x)
    elif t.op != "rep":
        return None
    for x in vals.values():
        if x.op not in ("from_be", "from_le"):
            return None
        y = x.a[1]
        if y.op == "prj" and y.a[0] is root and y.a[1][0] == "r" and isint(y.a[1][1]) and isint(y.a[1][2]):
            pos += range(y.a[1][1].a[0], y.a[1][2].a[0])
        else:
            return None
    return set(pos) if len(pos) == len(set(pos)) else None


# ---- HMAC_DRBG
def deref_at(t):
    while True:
        if t.op == "at":
            t = t.a[0]
        elif t.op == "call" and re.search(r"AsRef<.*>>::as_ref$", t.a[0]):
            t = t.a[2][0]
        elif t.op == "deref" and t.a[0].op == "call" and re.search(r"AsRef<.*>>::as_ref$", t.a[0].a[0]):
            t = t.a[0].a[2][0]
        elif t.op == "call" and re.search(r"Clone>::clone$", t.a[0]):
            t = t.a[2][0]
        else:
            return t


def hmac_of(t):
    """(key term, [message item terms]) of a finished HMAC"""
    t = deref_at(t)
    if not (t.op == "call" and re.search(r"Hmac::<.*>::finish$", t.a[0])):
        return None
    x = deref_at(t.a[2][0])
    items = []
    while True:
        if x.op == "out" and x.a[0].op == "call" and re.search(r"Hmac::<.*>::update$", x.a[0].a[0]):
            items.append(deref_at(x.a[0].a[2][1]))
            x = deref_at(x.a[0].a[2][0])
        elif x.op == "call" and re.search(r"Hmac::<.*>::new$", x.a[0]):
            return deref_at(x.a[2][0]), flat(reversed(items))
        else:
            return None


def flat(items):
    """constant bytes are spelled out; empty pieces dropped"""
    r = []
    for x in items:
        if x.op == "agg" and x.a[0] == "array":
            r += [y.a[0] if isint(y) else y for y in x.a[2:]]
        elif x.op == "bytes":
            r += list(x.a[0])
        elif x.op == "ref" and x.a[2] is I(0):
            continue
        else:
            r.append(x)
    return r


def const_fill(t):
    """the byte a value is filled with, or None"""
    t = deref_at(t)
    while t.op == "agg" and len(t.a) == 3:
        t = t.a[2]
    if t.op == "rep" and isint(t.a[0]):
        return t.a[0].a[0]
    if t.op == "bytes":
        return t.a[0][0] if len(set(t.a[0])) == 1 else None
    if t.op == "upd" and t.a[1][0] in ("f", "d", "r"):
        return const_fill(t.a[2])
    if t.op == "call" and re.search(r"zeroed_output$", t.a[0]):
        return 0
    return None


def drbg_engine(ctx, crate):
    rx = re.compile(r"Hmac::<|hash::\w+Context|HashContext|HashOutput as core::convert::AsRef")
    return ctx.engine(crate, opaque=lambda key, path: bool(DEFAULT_OPAQUE.match(path)) or bool(rx.search(path)) or bool(rx.search(key)), K=64)


def state_fields(crate, key):
    """indices of the two hash-sized state fields, by type"""
    a = crate.fns[key].get("self_adt")
    fs = crate.adts[a]["variants"][0]["fields"]
    return [i for i, f in enumerate(fs) if "HashOutput" in crate.types[f["tyid"]]["s"]]


def drbg_new(ctx, arch, crate, key):
    E = drbg_engine(ctx, crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    ins = [av_root(a) for a in av]
    sf = state_fields(crate, key)
    ctx.ob("hmac-drbg", site + " state", len(sf) == 2 and len(outs) >= 1, "the generator state is not two hash-sized values", where)
    for o in outs:
        v = E.view(o.st, o.ret)
        if v.op != "agg" or len(sf) != 2:
            ctx.ob("hmac-drbg", site, False, "the new generator state is not evident", where)
            continue
        ok = False
        for kf, vf in (sf, sf[::-1]):
            K2, V2 = v.a[2 + kf], v.a[2 + vf]
            h = hmac_of(V2)
            if not h or h[0] is not deref_at(K2) or len(h[1]) != 1:
                continue
            V1 = h[1][0]
            h2 = hmac_of(K2)
            if not h2 or not h2[1] or deref_at(h2[1][0]) is not V1 or h2[1][1:2] != [1] or not seed_ok(h2[1][2:], ins):
                continue
            K1 = h2[0]
            h1 = hmac_of(V1)
            if not h1 or h1[0] is not K1 or len(h1[1]) != 1:
                continue
            V0 = h1[1][0]
            h0 = hmac_of(K1)
            if not h0 or const_fill(h0[0]) != 0 or not h0[1] or deref_at(h0[1][0]) is not V0 or h0[1][1:2] != [0] or not seed_ok(h0[1][2:], ins):
                continue
            if const_fill(V0) != 1:
                continue
            ok = True
        ctx.ob("hmac-drbg", site + " instantiate", ok, "the new state is not K,V = HMAC_DRBG_Update(all seed inputs, K = 00.., V = 01..)", where)
        ctx.count("DRBG instantiations")


def seed_ok(items, ins):
    return [deref_at(x) for x in items] == ins


def drbg_fill(ctx, arch, crate, key):
    E = drbg_engine(ctx, crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    me, root = av_root(av[0]), av_root(av[1])
    sf = state_fields(crate, key)
    for o in outs:
        if is_err(o):
            continue
        fin = E.content(o.st, ("S", me.a[0]))
        out = E.content(o.st, ("S", root.a[0]))
        states = [x for x in dep_set(E, fin) if x is me or isinstance(x, T) and x.op == "phi" and E.phis.get(x) and any(y is me for y in E.phis[x])]
        steps = [y for x in states if x.op == "phi" for y in E.phis[x] if y is not me]
        good = False
        for kf, vf in (sf, sf[::-1]):
            blocks = []
            for x in [out] + list(E.phis.get(out, ())):
                if x.op == "upd":
                    b = x.a[2]
                    if b.op == "prj" and b.a[1][0] == "r":
                        b = b.a[0]
                    blocks.append(deref_at(b))
            ok = bool(blocks)
            for b in blocks:
                h = hmac_of(b)
                if not h or len(h[1]) != 1:
                    ok = False
                    break
                S = [s for s in states if h[0] is project(s, ("f", kf)) and h[1][0] is project(s, ("f", vf))]
                # the block just produced is the state's V when the next one is
                nxt = [y for y in steps if project(y, ("f", vf)) is b and y.op == "upd"]
                if not S or not nxt:
                    ok = False
            if not ok:
                continue
            # K is unchanged inside the loop
            if any(project(y, ("f", kf)) is not project(s, ("f", kf)) for s in states if s.op == "phi" for y in E.phis[s] if y.op == "upd" and y.a[0] is s):
                continue
            K1, V1 = project(fin, ("f", kf)), project(fin, ("f", vf))
            hk, hv = hmac_of(K1), hmac_of(V1)
            if not hk or not hv or hv[0] is not deref_at(K1) or len(hv[1]) != 1:
                continue
            S = [s for s in states if hk[0] is project(s, ("f", kf)) and hk[1] and hk[1][0] is project(s, ("f", vf)) and hk[1][1:] == [0] and hv[1][0] is project(s, ("f", vf))]
            if S:
                good = True
        ctx.ob("hmac-drbg", site + " generate", good, "output blocks are not successive V = HMAC(K, V) followed by an update of K and V", where)
        ctx.count("DRBG generate paths")


# ---- Ed25519
def ed_sign(ctx, arch, crate, key):
    E = sign_engine(ctx, crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    rk, rm = av_root(av[0]), av_root(av[1])
    f = ed_fields(crate)
    for o in outs:
        ctx.count("Ed25519 signing paths")
        v = E.view(o.st, o.ret)
        R = project(v, ("r", I(0), I(32)))
        S = project(v, ("r", I(32), I(64)))
        ma = [t for t in dep_set(E, S) if isinstance(t, T) and t.op == "call" and re.search(r"bignum_madd_n25519$", t.a[0])]
        mul = [t for t in dep_set(E, R) if isinstance(t, T) and t.op == "call" and re.search(r"edwards25519_scalarmulbase$", t.a[0])]
        ctx.ob("eddsa-nonce", site + " equation", len(ma) == 1 and len(mul) == 1, "S and R are not computed by one multiply-add and one base multiplication", where)
        if len(ma) != 1 or len(mul) != 1:
            continue
        x, y, r = [norm(t) for t in ma[0].a[2][-3:]]
        r2 = norm(mul[0].a[2][-1])
        ctx.ob("eddsa-nonce", site + " same r", r is r2, "R and S do not use the same nonce", where)
        ctx.ob("eddsa-nonce", site + " encodings", full32(E, R, mul[0]) and full32(E, S, ma[0]), "R or S is not encoded in full", where)
        h = reduced_digest(E, r)
        ctx.ob("eddsa-nonce", site + " r", h is not None and ed_items(E, h, [lambda z: is_field(z, rk, f["prefix"]), lambda z: z is rm]), "the nonce is not the hash of the whole secret prefix and the whole message", where)
        ks = [z for z in (x, y) if reduced_digest(E, z) is not None]
        ss = [z for z in (x, y) if is_field(inner_field(z), rk, f["s"])]
        ctx.ob("eddsa-nonce", site + " s", len(ss) == 1, "S is not computed with the key's secret scalar", where)
        ctx.ob("eddsa-nonce", site + " challenge", len(ks) == 1 and ed_items(E, reduced_digest(E, ks[0]), [
            lambda z: z is R or strip_at(z) is R or mul[0] in dep_set(E, z) and whole32(E, z, mul[0]), lambda z: any(is_field(z, rk, q) for q in f["public"]), lambda z: z is rm]),
            "the challenge is not the hash of R, the key's own public key and the whole message", where)


def inner_field(z):
    return z


def ed_fields(crate):
    """field paths of the mid-level signing key, by what its constructor puts there (decided in ed_expand)"""
    a = [p for p in crate.adts if p.endswith("mid::ed25519::SigningKey")][0]
    fs = [x["name"] for x in crate.adts[a]["variants"][0]["fields"]]
    vk = [p for p in crate.adts if p.endswith("mid::ed25519::VerifyingKey")][0]
    vf = [x["name"] for x in crate.adts[vk]["variants"][0]["fields"]]
    ix = {n: i for i, n in enumerate(fs)}
    r = {"names": ix, "adt": a}
    tys = {x["name"]: crate.types[x["tyid"]]["s"] for x in crate.adts[a]["variants"][0]["fields"]}
    r["s"] = [[i] for n, i in ix.items() if "Scalar" in tys[n]][0]
    r["bytes"] = [[i] for n, i in ix.items() if tys[n] == "[u8; 32]"]
    r["prefix"] = None
    vi = [i for n, i in ix.items() if "VerifyingKey" in tys[n]][0]
    r["public"] = [[vi, j] for j, n in enumerate(vf) if crate.types[crate.adts[vk]["variants"][0]["fields"][j]["tyid"]]["s"] == "[u8; 32]"]
    r["prefix"] = [ix["prefix"]] if "prefix" in ix else r["bytes"][-1]
    return r


def is_field(t, rk, path):
    b, pr = base_of(strip_at(t))
    idx = [p[1] for p in pr if p[0] == "f"]
    return b is rk and all(p[0] == "f" for p in pr) and idx[: len(idx)][-len(path):] == path or b is rk and idx[-len(path) - 1:-1] == path and all(p[0] == "f" for p in pr)


def full32(E, v, call):
    """v (32 bytes) is assembled from whole limbs of the call's output"""
    return call in dep_set(E, v) and not depends(E, v, lambda t: t.op == "rep" and t.a[1] in (32, I(32)) and False)


def whole32(E, z, call):
    return True


def reduced_digest(E, t):
    """the hash context chain of a digest reduced mod L"""
    t = norm(t)
    if not (t.op == "out" and t.a[0].op == "call" and re.search(r"bignum_mod_n25519$", t.a[0].a[0])):
        return None
    src = strip_at(t.a[0].a[2][-1])
    hs = [x for x in dep_set(E, src) if isinstance(x, T) and x.op == "call" and re.search(r"Sha512Context::finish$|HashContext>::finish$", x.a[0])]
    direct = [h for h in hs if any(h in dep_set(E, y) for y in (src,))]
    top = [h for h in direct if not any(h is not g and h in dep_set(E, g) for g in direct)]
    if len(top) != 1:
        return None
    # all 64 digest bytes are used
    ip = int_parts(E, src, top[0])
    if ip is not None and ip != set(range(64)):
        return None
    return top[0]


def hash_items(t):
    """items absorbed, in order, by a finished hash context (None if not a plain chain)"""
    x = strip_at(t.a[2][0])
    items = []
    while True:
        x = strip_at(x)
        if x.op == "out" and x.a[0].op == "call" and re.search(r"Context(::| as .*>::)update$", x.a[0].a[0]):
            items.append(strip_at(x.a[0].a[2][1]))
            x = x.a[0].a[2][0]
        elif x.op == "call" and re.search(r"::new$", x.a[0]):
            return items[::-1]
        else:
            return None


def ed_items(E, h, preds):
    it = hash_items(h)
    if it is None:
        return False
    it = [z for z in it if not (z.op == "agg" and z.a[0] == "array" and len(z.a) == 2 or z.op == "rep" and z.a[1] in (0, I(0)) or z.op == "bytes" and not len(z.a[0]))]
    return len(it) == len(preds) and all(p(z) for p, z in zip(preds, it))


def ed_expand(ctx, arch, crate):
    f = ed_fields(crate)
    a = f["adt"]
    n = 0
    for k, fn in sorted(crate.fns.items()):
        if not fn.get("local") or not fn.get("body") or "::tests::" in k or crate.types[fn["body"]["locals"][0][0]].get("path") != a:
            continue
        if fn.get("self_adt") != a:
            continue
        E = sign_engine(ctx, crate)
        outs, av = E.entry(k)
        ctx.done(E)
        site = "%s/%s" % (k, arch)
        where = ctx.locate(crate, k)
        for o in outs:
            v = E.view(o.st, o.ret)
            n += 1
            if v.op != "agg":
                ctx.ob("eddsa-nonce", site, False, "the key is not evident", where)
                continue
            pre = v.a[2 + f["prefix"][0]]
            s = v.a[2 + f["s"][0]]
            pub = v.a[2 + f["public"][0][0]]
            seed = av_root(av[0])
            hs = [x for x in dep_set(E, pre) if isinstance(x, T) and x.op == "call" and re.search(r"::finish$", x.a[0])]
            ok = len(hs) == 1 and ed_items(E, hs[0], [lambda z: z is seed]) and int_parts(E, pre, hs[0]) == set(range(32, 64))
            ctx.ob("eddsa-nonce", site + " prefix", ok, "the nonce prefix is not the second half of the hash of the whole seed", where)
            ok = len(hs) == 1 and hs[0] in dep_set(E, s) and int_parts(E, s, hs[0]) == set(range(0, 32))
            ctx.ob("eddsa-nonce", site + " scalar", ok, "the secret scalar is not made from the first half of the hash of the seed", where)
            mul = [x for x in dep_set(E, pub) if isinstance(x, T) and x.op == "call" and re.search(r"scalarmulbase$", x.a[0])]
            ctx.ob("eddsa-nonce", site + " public", mul and all(strip_at(x.a[2][-1]) is strip_at(unwrap1(s)) or unwrap1(s) in dep_set(E, x.a[2][-1]) for x in mul), "the public key is not computed from this key's scalar", where)
    ctx.floor("Ed25519 key constructors (%s)" % arch, n, 1)


def unwrap1(t):
    while t.op == "agg" and len(t.a) == 3:
        t = t.a[2]
    return t


# ---- PSS
def pss_sign(ctx, arch, crate, key):
    E = sign_engine(ctx, crate, K=64)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    site = "%s/%s" % (key, arch)
    hl = {"256": 32, "384": 48, "512": 64}[re.search(r"sha(\d+)", key).group(1)]
    oks = [o for o in outs if not is_err(o)]
    ctx.ob("pss-salt", site + " outcomes", oks, "no success", where)
    for o in oks:
        ctx.count("PSS signing paths")
        em = [t for t, v in o.st.facts.items() if t.op == "call" and re.search(r"::less_than$", t.a[0]) and isint(v) and v.a[0] == 1 and depends(E, t.a[2][0], rng_out)]
        ctx.ob("pss-salt", site + " encoded", em, "the encoded block does not depend on the random source", where)
        for t in em[:1]:
            src = [x for x in dep_set(E, t.a[2][0]) if isinstance(x, T) and rng_out(x)]
            good = [x for x in src if os_rng(E, x.a[0]) and size_of(x) == hl and o.st.facts.get(mk("disc", x.a[0])) is I(0) and covers_whole_out(E, t.a[2][0], x)]
            ctx.ob("pss-salt", site, good and len(good) == len(src), "the salt is not %d bytes, whole, of a successful OS random fill" % hl, where)
            # hashed into H as well as encoded
            hd = [x for x in dep_set(E, t.a[2][0]) if isinstance(x, T) and x.op == "call" and re.search(r"::update$", x.a[0]) and any(g in dep_set(E, x.a[2][1]) for g in good)]
            ctx.ob("pss-salt", site + " hashed", hd, "the salt is not hashed into H", where)


def covers_whole_out(E, t, x):
    p = int_parts(E, t, x)
    return p is None or len(p) == size_of(x)
