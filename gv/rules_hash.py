"""C20: HMAC construction, tag comparison and hash adapters."""
import re
from .core import guarded
from .engine import *
from .engine import DEFAULT_OPAQUE
from .q import *
from .rules_ec import archs, av_root

# the incremental hash contexts are exported types; what they do with their input is C30
MID = re.compile(r"mid::sha2::\w+Context(::(new|update|finish)$| as core::clone::Clone>::clone$)|low::.*ct_equal$|hmac::(public_)?Tag::new$|hash::Output::new$")
BLOCK = {"Sha256": 64, "Sha384": 128, "Sha512": 128}
HLEN = {"Sha256": 32, "Sha384": 48, "Sha512": 64}


def hash_engine(ctx, crate):
    E = ctx.engine(crate, opaque=lambda key, path: bool(DEFAULT_OPAQUE.match(path)) or bool(MID.search(path)) or bool(MID.search(key)), K=64)
    E.eager = False
    return E


def mid_call(t, name):
    """algorithm of a mid::sha2 context call, or None"""
    if t.op != "call":
        return None
    for s in (t.a[0], str(t.a[1])):
        m = re.search(r"sha2::(Sha\d+)Context(?: as core::clone::Clone>)?::%s$" % name, s)
        if m:
            return m.group(1)
    return None


def plain(t):
    """strip content markers and clones"""
    while True:
        if t.op == "at":
            t = t.a[0]
        elif t.op == "call" and re.search(r"Clone>::clone$", t.a[0]):
            t = t.a[2][0]
        elif t.op == "agg" and len(t.a) > 2:
            # a struct rebuilt field by field from one original
            fs = [plain(x) for x in t.a[2:]]
            if all(x.op == "prj" and x.a[1] == ("f", i) for i, x in enumerate(fs)) and len({x.a[0] for x in fs}) == 1:
                t = fs[0].a[0]
            else:
                return t
        else:
            return t


def stream(E, t, busy=()):
    """(base, algorithm or None, [items]) of a context value: what it was started from and what it has been fed, in order; an item is a content term or ('each', content of one element, iterator)"""
    t = plain(t)
    if t in busy:
        return t, None, []
    if t.op == "out" and t.a[1] == 0 and mid_call(t.a[0], "update"):
        b, alg, it = stream(E, t.a[0].a[2][0], busy)
        return b, mid_call(t.a[0], "update"), it + [plain(t.a[0].a[2][1])]
    if mid_call(t, "new"):
        return "new", mid_call(t, "new"), []
    b, pr = t, []
    while b.op == "prj":
        pr.append(b.a[1])
        b = b.a[0]
    if b.op == "phi" and E.phis.get(b):
        entry, steps = [], []
        for y in E.phis[b]:
            if y is b:
                continue
            for e in reversed(pr):
                y = project(y, e)
            (steps if any(z is b for z in dep_set(E, y)) and direct(y, b) else entry).append(stream(E, y, busy + (t,)))
        own = [s for s in steps if s[0] is t]
        if len(own) == len(steps) == 1 and len(own[0][2]) == 1:
            it = own[0][2][0]
            alg = own[0][1]
            starts = [e for e in entry]
            # the loop may have been peeled once: entry, and entry followed by the same element
            base = min(starts, key=lambda e: len(e[2]))
            ix = [z for z in subterms(it) if z.op == "itidx"] or [z.a[1][1] for z in subterms(it) if z.op == "prj" and z.a[1][0] == "i" and z.a[1][1].op == "phi"]
            ok = len(set(ix)) == 1 and all(e[0] is base[0] and e[2][:len(base[2])] == base[2] and (len(e[2]) == len(base[2]) or len(e[2]) == len(base[2]) + 1 and first_of(e[2][-1], it, ix[0])) for e in starts)
            if ok:
                return base[0], alg, base[2] + [("each", it, ix[0])]
    return t, None, []


def first_of(x, it, ix):
    """x is the element it with index ix = 0 (or, for an iterator, the same term)"""
    if x is it:
        return True
    if x.op != it.op or len(x.a) != len(it.a):
        return False
    if it.op == "prj" and it.a[1][0] == "i" and it.a[1][1] is ix:
        return x.a[0] is it.a[0] and x.a[1] == ("i", I(0))
    return all(a is b or isinstance(a, T) and isinstance(b, T) and first_of(a, b, ix) for a, b in zip(x.a, it.a))


def each_of(E, o, ix, root):
    """the loop over ix visits every element of root once, in order"""
    if ix.op == "itidx":
        k = E.iters.get(ix.a[0])
        return bool(k) and k[0] == "iter" and ptr_whole(E, k[1], root)
    ki = E.phis.get(ix, {})
    ln = mk("len", root.a[0])
    done = o.st.facts.get(b_lt(ix, ln)) is FALSE or o.st.facts.get(mk("eq", ix, ln)) is TRUE
    return done and I(0) in ki and all(y in (I(0), I(1)) or y is add(ix, I(1)) for y in ki)


def direct(y, b):
    return any(z is b for z in subterms(y))


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.a:
            if isinstance(a, T):
                st.append(a)
            elif isinstance(a, tuple):
                st += [z for z in a if isinstance(z, T)]


def digest(E, t):
    """(base, alg, items) of a finished hash"""
    t = plain(t)
    alg = mid_call(t, "finish")
    if not alg:
        return None
    b, a2, items = stream(E, t.a[2][0])
    if a2 not in (None, alg):
        return None
    return b, alg, items


def hash_output(crate, t):
    """the digest wrapped in a HashOutput, if of the variant for its algorithm"""
    t = plain(t)
    if t.op == "agg" and str(t.a[0]).endswith("::HashOutput"):
        v = crate.adts[t.a[0]]["variants"][t.a[1] if isinstance(t.a[1], int) else t.a[1].a[0]]["name"]
        alg = mid_call(plain(t.a[2]), "finish")
        if alg and alg == v:
            return t.a[2]
    return None


def byte_map(E, t, n):
    """(source array, xor constant) when bytes 0..n of t are those of source xor the constant"""
    t = plain(t)
    if t.op == "prj" and t.a[1][0] == "r" and t.a[1][1] is I(0):
        return byte_map(E, t.a[0], n)
    if t.op != "phi":
        return t, 0
    incs = [y for y in E.phis.get(t, ()) if y is not t]
    step = [y for y in incs if y.op == "upd" and y.a[0] is t and y.a[1][0] == "i"]
    if len(step) != 1:
        return t, 0
    ix, v = step[0].a[1][1], step[0].a[2]
    if not whole_loop(E, ix, n):
        return t, 0
    c = 0
    while v.op == "bin" and v.a[0] == "BitXor":
        a, b = v.a[1], v.a[2]
        if isint(b):
            c, v = c ^ b.a[0], a
        elif isint(a):
            c, v = c ^ a.a[0], b
        else:
            return t, 0
    if not (v.op == "prj" and v.a[1] == ("i", ix)):
        return t, 0
    src = v.a[0]
    if src is t:
        rest = [y for y in incs if y is not step[0]]
        base = [y for y in rest if not (y.op == "upd" and y.a[1] == ("i", ix))]
        if len(base) != 1:
            return t, 0
        src = base[0]
    s, c2 = byte_map(E, src, n)
    return s, c ^ c2


def whole_loop(E, ix, n):
    if ix.op == "itidx":
        k = E.iters.get(ix.a[0])
        if not k or k[0] != "iter":
            return False
        p = k[1]
        return p.op == "ref" and isint(p.a[2]) and p.a[2].a[0] >= n
    if ix.op == "phi":
        ki = E.phis.get(ix, {})
        return I(0) in ki and all(y is I(0) or y is add(ix, I(1)) or isint(y) for y in ki)
    return False


def key_len_fact(o, ln, block):
    """True: the key is known to be longer than a block; False: not longer; None: unknown"""
    for t, v in o.st.facts.items():
        if t.op == "lt" and isint(v):
            if t.a[0] is I(block) and t.a[1] is ln:
                return v is I(1)
            if t.a[0] is ln and t.a[1] is I(block + 1):
                return v is I(0)
    return None


def C20(ctx):
    ctx.rule("hmac-key", "an HMAC key longer than the hash's block is replaced by its hash, any other is zero-padded to the block; the inner and outer hashes start from exactly that block xored with 0x36 and 0x5c in every byte")
    ctx.rule("hmac-message", "update feeds all of its input to the inner hash, in order, and finish returns outer-hash(outer block || inner hash)")
    ctx.rule("hmac-verify", "verification succeeds only when the whole supplied tag equals the whole computed one in the secret-independent comparison; equality and truncated equality of hash outputs cover every byte")
    ctx.rule("hash-adapter", "the one-shot hash functions and the rustls hash and HMAC adapters feed every byte of their input, in order, to a new (or forked) context of the right algorithm and return the whole output")
    for arch, crate in archs(ctx):
        n = 0
        for alg in BLOCK:
            pre = r"^graviola::high::hmac::Hmac::<graviola::high::hash::%s>::" % alg
            own = [k for k, f in sorted(crate.fns.items()) if re.match(pre, k) and f.get("body") and f.get("vis") == "Public"]
            guarded(ctx, "%s/%s" % (alg, arch), hmac_alg, arch, crate, alg, own)
            n += len(own)
            for k in (q for q in crate.fns if re.match(r"<graviola::high::hash::%s as graviola::high::hash::Hash>::hash$" % alg, q)):
                guarded(ctx, k + "/" + arch, one_shot, arch, crate, k, alg)
        ctx.floor("HMAC functions (%s)" % arch, n, 15)
        guarded(ctx, "HashOutput/" + arch, outputs_equal, arch, crate)
    guarded(ctx, "rustls", rustls_hash)


def hmac_alg(ctx, arch, crate, alg, keys):
    ctx.ob("hmac-message", alg + "/" + arch, {"new", "update", "finish", "verify"} <= {re.match(r".*?>::(\w+)", k).group(1) for k in keys}, "the HMAC functions are missing", "")
    inner = outer = None
    for k in sorted(keys, key=lambda k: "::finish" not in k):
        E = hash_engine(ctx, crate)
        outs, av = E.entry(k)
        ctx.done(E)
        where = ctx.locate(crate, k)
        site = "%s/%s" % (k, arch)
        name = re.match(r".*?>::(\w+)", k).group(1)
        ctx.ob("hmac-message", site + " outcomes", outs, "no outcome", where)
        for o in outs:
            ctx.count("HMAC paths")
            if name == "finish":
                r = mac_value(E, crate, o.ret, alg)
                ok = bool(r) and r[0] is not r[1]
                if ok and inner is None:
                    inner, outer = field_path(r[0]), field_path(r[1])
                ctx.ob("hmac-message", site, ok and r[2] == [] and (field_path(r[0]), field_path(r[1])) == (inner, outer) and self_based(r[0], av[0]) and self_based(r[1], av[0]), "finish is not outer-hash(outer || inner-hash)", where)
            elif name == "update":
                cont = E.content(o.st, ("S", av_root(av[0]).a[0]))
                root = av_root(av[0])
                ok = inner is not None
                if ok:
                    b, a2, items = stream(E, by_path(cont, inner))
                    ok = b is by_path(root, inner) and items and a2 == alg and len(items) == 1 and is_whole_arg(items[0], av[1]) and by_path(cont, outer) is by_path(root, outer)
                ctx.ob("hmac-message", site, ok, "update does not feed all of its input to the inner hash alone", where)
            elif name == "verify":
                if is_err(o):
                    continue
                good = False
                for t, v in o.st.facts.items():
                    if t.op == "call" and t.a[0].endswith("ct_equal") and v is I(1):
                        for x, y in (t.a[2], t.a[2][::-1]):
                            r = mac_digest(E, plain(x), alg)
                            if r and r[2] == [] and field_path(r[0]) == inner and field_path(r[1]) == outer and plain(y) is av_root(av[1]):
                                good = True
                ctx.ob("hmac-verify", site, good, "verification can succeed without the whole tag having been compared equal", where)
            elif name == "new":
                v = E.view(o.st, o.ret)
                ok = inner is not None
                why = "the HMAC state is not evident"
                if ok:
                    (bi, ai, ii), (bo, ao, io) = stream(E, by_path(v, inner)), stream(E, by_path(v, outer))
                    ok = bi == bo == "new" and ai == ao == alg and len(ii) == len(io) == 1
                    if ok:
                        B = BLOCK[alg]
                        (k1, c1), (k2, c2) = byte_map(E, ii[0], B), byte_map(E, io[0], B)
                        ok = (c1, c2) == (0x36, 0x5c) and k1 is k2 and block_len(ii[0]) == block_len(io[0]) == B
                        why = "the inner and outer blocks are not the same key block xored with 0x36 and 0x5c in every byte (%s, %s)" % (show(ii[0], 4)[:80], show(io[0], 4)[:80])
                        if ok:
                            ok = key_block(E, o, k1, av_root(av[0]) if av[0].op == "ref" else av[0], alg)
                            why = "the key block is not the zero-padded key, or the zero-padded hash of a key longer than the block (%s)" % show(k1, 4)[:160]
                ctx.ob("hmac-key", site, ok, why, where)


def block_len(t):
    t = plain(t)
    if t.op == "prj" and t.a[1][0] == "r" and isint(t.a[1][1]) and isint(t.a[1][2]):
        return t.a[1][2].a[0] - t.a[1][1].a[0]
    ln = mk("len", t)
    return 128 if t.op == "phi" else None


def key_block(E, o, t, key, alg):
    B, H = BLOCK[alg], HLEN[alg]
    t = plain(t)
    if not (t.op == "upd" and t.a[1][0] == "r" and t.a[1][1] is I(0)):
        return False
    z = plain(t.a[0])
    if not (z.op == "rep" and z.a[0] is I(0)):
        return False
    hi, v = t.a[1][2], plain(t.a[2])
    ln = mk("len", key.a[0]) if key.op == "deref" else None
    long = key_len_fact(o, ln, B)
    if long is False:
        return v is key and hi is ln
    if long is True:
        d = digest(E, v)
        return bool(d) and d[0] == "new" and d[1] == alg and d[2] == [key] and hi is I(H)
    return False


def mac_digest(E, t, alg):
    """(inner base, outer base, items fed to inner) of a finished HMAC"""
    d = digest(E, t)
    if not d or d[1] != alg or len(d[2]) != 1:
        return None
    i = digest(E, d[2][0])
    if not i or i[1] != alg:
        return None
    return i[0], d[0], i[2]


def mac_value(E, crate, t, alg):
    h = hash_output(crate, t)
    return mac_digest(E, h, alg) if h is not None else None


def field_path(t):
    r = []
    while isinstance(t, T) and t.op == "prj":
        r.append(t.a[1])
        t = t.a[0]
    return tuple(reversed(r))


def self_based(t, me):
    while t.op == "prj":
        t = t.a[0]
    return t is me or t is av_root(me)


def by_path(t, path):
    for e in path:
        t = project(t, e)
    return t


def is_whole_arg(item, arg):
    """item is the whole content behind the argument, through any number of references"""
    t = item
    while True:
        if t is arg or arg.op == "ref" and t is av_root(arg):
            return True
        if t.op in ("deref", "at"):
            t = t.a[0]
        elif t.op == "ref" and not t.a[1]:
            t = t.a[0]
            return False
        else:
            return False


def one_shot(ctx, arch, crate, key, alg):
    E = hash_engine(ctx, crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    for o in outs:
        ctx.count("one-shot hash paths")
        h = hash_output(crate, o.ret)
        d = digest(E, h) if h is not None else None
        ctx.ob("hash-adapter", "%s/%s" % (key, arch), bool(d) and d[0] == "new" and d[1] == alg and d[2] == [av_root(av[0])], "the one-shot hash is not the hash of exactly its input", where)


def outputs_equal(ctx, arch, crate):
    ho = [p for p in crate.adts if p.endswith("hash::HashOutput")]
    ctx.floor("hash output type (%s)" % arch, len(ho), 1)
    names = [v["name"] for v in crate.adts[ho[0]]["variants"]]
    ctx.ob("hmac-verify", "HashOutput variants/" + arch, set(names) >= set(BLOCK), "", "")
    for k, f in sorted(crate.fns.items()):
        if not f.get("body") or not re.match(r"graviola::high::hash::HashOutput::\w+$|<graviola::high::hash::HashOutput as core::cmp::PartialEq>::eq$", k) or ret_ty(crate, k)["s"] != "bool":
            continue
        E = hash_engine(ctx, crate)
        outs, av = E.entry(k)
        ctx.done(E)
        where = ctx.locate(crate, k)
        a, b = av_root(av[0]), av_root(av[1])
        trunc = f.get("generics") or "trunc" in k
        seen = set()
        for o in outs:
            ctx.count("hash output comparison paths")
            if o.ret is I(0):
                continue
            calls = [t for t in ([o.ret] if o.ret.op == "call" else []) + [t for t, v in o.st.facts.items() if v is I(1)] if t.op == "call" and t.a[0].endswith("ct_equal")]
            ok = False
            for t in calls:
                for x, y in (t.a[2], t.a[2][::-1]):
                    vx, px, rx = variant_payload(x)
                    vy, py, ry = variant_payload(y)
                    if px is not a or (py is not b):
                        continue
                    if rx is not None and not ("truncated" in k and rx[1] is I(0) and not isint(rx[2])):
                        continue
                    if ry is not None:
                        continue
                    if vy is not None and vy != vx:
                        continue
                    if vx is None and vy is None and "eq" in k.rsplit("::", 1)[1] and "ct_" not in k:
                        continue
                    ok = True
                    seen.add(vx)
            ctx.ob("hmac-verify", "%s/%s" % (k, arch), ok, "hash outputs can compare equal without every byte having been compared", where)
        ctx.ob("hmac-verify", "%s/%s variants" % (k, arch), len(seen) == len(names), "some hash output variant can never compare equal, or is not compared", where)


def variant_payload(t):
    """(variant, owner, range) of a reference to the payload array of an enum (or to a plain slice)"""
    t = plain(t)
    r = None
    if t.op == "prj" and t.a[1][0] == "r":
        r = t.a[1]
        t = t.a[0]
    if t.op == "prj" and t.a[1][0] == "f" and t.a[0].op == "prj" and t.a[0].a[1][0] == "d":
        return t.a[0].a[1][1], t.a[0].a[0], r
    return None, t, r


def rustls_hash(ctx):
    crate = ctx.r
    n = 0
    for k, f in sorted(crate.fns.items()):
        m = re.match(r"<rustls_graviola::(hash|hmac)::(.*) as rustls::crypto::(hash|hmac)::(\w+)>::(\w+)$", k)
        if not m or not f.get("body"):
            continue
        am = re.search(r"(256|384|512)", m.group(2))
        if not am:
            continue
        alg = "Sha" + am.group(1)
        tr, fn = m.group(3) + "::" + m.group(4), m.group(5)
        n += 1
        guarded(ctx, k, rustls_one, crate, k, alg, tr, fn)
    ctx.floor("rustls hash and HMAC adapter functions", n, 20)


def boxed(E, o):
    v = E.view(o.st, o.ret)
    if v.op == "upd" and v.a[1] == ("f", "ptr"):
        v = v.a[2]
    return v


def unagg(v):
    while v.op == "agg" and len(v.a) == 3:
        v = v.a[2]
    return v


def rustls_one(ctx, crate, key, alg, tr, fn):
    E = hash_engine(ctx, crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)

    def ob(ok, why):
        ctx.ob("hash-adapter", key, ok, why, where)
    me = av_root(av[0]) if av[0].op == "ref" else av[0]
    for o in outs:
        ctx.count("rustls adapter paths")
        if fn in ("output_len", "hash_output_len", "tag_len"):
            ob(o.ret is I(HLEN[alg]), "wrong output length %s" % show(o.ret, 2))
        elif fn == "algorithm":
            v = o.ret
            nm = show(v, 2)
            if v.op == "agg" and v.a[0] in crate.adts:
                i = v.a[1] if isinstance(v.a[1], int) else v.a[1].a[0]
                nm = crate.adts[v.a[0]]["variants"][i]["name"]
                ob(nm.upper() == alg.upper(), "wrong algorithm %s" % nm)
            else:
                ob(v.op == "agg", "algorithm not evident: %s" % nm)
        elif tr == "hash::Hash" and fn == "start":
            b, a2, it = stream(E, unagg(boxed(E, o)))
            ob(b == "new" and a2 == alg and not it, "start does not return a fresh context of the algorithm")
        elif tr == "hash::Hash" and fn == "hash":
            d = out_new(E, o.ret)
            ob(bool(d) and d[0] == "new" and d[1] == alg and d[2] == [av_root(av[1])], "hash is not the hash of exactly its input")
        elif tr == "hash::Context" and fn in ("fork_finish", "finish"):
            d = out_new(E, o.ret)
            ob(bool(d) and d[1] == alg and not d[2] and isinstance(d[0], T) and own_ctx(d[0], me, av[0]), "the digest is not that of the context's own state")
        elif tr == "hash::Context" and fn == "fork":
            b, a2, it = stream(E, unagg(boxed(E, o)))
            ob(isinstance(b, T) and not it and own_ctx(b, me, av[0]), "fork does not copy the context's state")
        elif tr == "hash::Context" and fn == "update":
            c = E.content(o.st, ("S", me.a[0]))
            ok = False
            for p in ((("f", 0),), (("f", 0), ("f", 0))):
                b, a2, it = stream(E, by_path(c, p))
                ok = ok or (a2 == alg and it == [av_root(av[1])] and b is by_path(me, p))
            ob(ok, "update does not feed exactly its input to the context")
        elif tr == "hmac::Hmac" and fn == "with_key":
            v = unagg2(boxed(E, o))
            ok = v is not None
            if ok:
                parts = [stream(E, unagg(x)) for x in v]
                ok = len(parts) == 2 and all(p[0] == "new" and p[1] == alg and len(p[2]) == 1 and covers(E, p[2][0], av_root(av[1])) for p in parts)
                if ok:
                    B = BLOCK[alg]
                    (k1, c1), (k2, c2) = (byte_map(E, p[2][0], B) for p in parts)
                    ok = k1 is k2 and {c1, c2} == {0x36, 0x5c} and key_block(E, o, k1, av_root(av[1]), alg)
            ob(ok, "the HMAC key is not built from the whole key with the right hash")
        elif tr == "hmac::Key" and fn == "sign_concat":
            d = out_new(E, o.ret)
            i = digest(E, d[2][0]) if d and len(d[2]) == 1 else None
            ok = bool(i) and d[1] == alg and i[1] == alg and own_ctx(d[0], me, av[0]) and own_ctx(i[0], me, av[0])
            if ok:
                it = i[2]
                ok = len(it) == 3 and it[0] is av_root(av[1]) and it[2] is av_root(av[3]) and isinstance(it[1], tuple) and it[1][0] == "each"
                if ok:
                    el = it[1][1]
                    while el.op in ("deref", "at"):
                        el = el.a[0]
                    ok = each_of(E, o, it[1][2], av_root(av[2])) and el.op == "prj" and el.a[0] is av_root(av[2]) and el.a[1][0] == "i"
            ob(ok, "the tag is not the HMAC, under this key, of first, every middle part in order, and last")


def own_ctx(b, me, raw):
    b = plain(b)
    while b.op in ("prj", "deref", "at"):
        b = b.a[0]
        b = plain(b)
    base = me
    while base.op in ("prj", "deref", "at"):
        base = base.a[0]
    r = raw
    while r.op in ("prj", "deref", "at"):
        r = r.a[0]
    return b is base or b is r or b is me or b is raw


def unagg2(v):
    """the two contexts inside a (wrapped) HMAC state"""
    while v.op == "agg" and len(v.a) == 3:
        v = v.a[2]
    return list(v.a[2:]) if v.op == "agg" and len(v.a) == 4 else None


def out_new(E, t):
    """the digest wrapped whole in a rustls Output or Tag"""
    t = plain(t)
    if t.op == "call" and re.search(r"(Tag|Output)::new$", t.a[0]):
        return digest(E, t.a[2][0])
    return None
