"""Memory hygiene: zeroisation on drop (C05), the byte primitives it and tag checks rest on (C31)."""
import re
from . import asm
from .core import guarded
from .engine import *
from .q import *
from .rules_ec import archs

# exported types that hold secrets, by public name; every byte not listed public must be zero after drop
SECRET = [
    r"key_agreement::x25519::(PrivateKey|StaticPrivateKey|SharedSecret)$",
    r"key_agreement::p256::(PrivateKey|StaticPrivateKey|SharedSecret)$",
    r"key_agreement::p384::(PrivateKey|StaticPrivateKey|SharedSecret)$",
    r"key_agreement::mlkem768::(DecapKey|SharedSecret)$",
    r"signing::rsa::SigningKey$", r"signing::ecdsa::SigningKey$", r"signing::eddsa::Ed25519SigningKey$",
    r"aead::(AesGcm|ChaCha20Poly1305|XChaCha20Poly1305)$",
]
# types that hold only public data (their absence of zeroisation is fine)
PUBLIC_TYPES = re.compile(r"::(EncapKey|RsaPublicKey|VerifyingKey|PublicKey)$|PhantomData")


def secret_adts(crate):
    r = {}
    for pub, p, kind in crate.exports:
        if kind in ("Struct", "Enum") and any(re.search(s, pub) for s in SECRET):
            r[pub] = p
    return r


def low_opaque(key, path):
    return bool(re.search(r"zeroise::zeroise(_value)?$|::_?zero_bytes$", path)) or ("core_arch" in path)


def C05(ctx):
    ctx.rule("zero-on-drop", "after the value's destructor and those of its fields have run, every field of an exported secret-holding type is all-zero (public-only fields excepted)")
    ctx.rule("no-leak", "no code suppresses the destructor of a secret-holding value (mem::forget, ManuallyDrop, Box::leak)")
    for arch, crate in archs(ctx):
        sec = secret_adts(crate)
        ctx.floor("exported secret types (%s)" % arch, len(sec), 17)
        E = ctx.engine(crate, opaque=low_opaque)
        for pub, p in sorted(sec.items()):
            guarded(ctx, "%s/%s" % (pub, arch), zero_type, arch, crate, E, pub, p)
        ctx.done(E)
        holders = secret_holders(crate, sec.values())
        n = 0
        for k, f in crate.fns.items():
            if not f.get("local") or not f.get("body") or "::tests::" in k:
                continue
            for c, t in call_sites(f):
                if not c:
                    continue
                n += 1
                path = c.get("rpath") or c.get("path") or ""
                if re.search(r"mem::forget|ManuallyDrop.*::new|Box.*::leak|::into_raw$|mem::maybe_uninit::MaybeUninit<.*>::(new|write)$|Vec.*::leak$", path):
                    ts = [crate.types[x]["s"] for x in c.get("targs", []) if isinstance(x, int)] + [path]
                    bad = [h for h in holders if any(h in y for y in ts)]
                    ctx.ob("no-leak", "%s -> %s/%s" % (k, path, arch), not bad, "the destructor of %s is suppressed" % bad, "%s:%s" % (f["file"], t.get("line")))
        ctx.count("call sites inspected for destructor suppression", n)
    primitives(ctx)


def secret_holders(crate, roots):
    """ADT paths reachable through fields from the secret types, that have a destructor somewhere below"""
    seen = set()
    st = list(roots)
    while st:
        p = st.pop()
        if p in seen or PUBLIC_TYPES.search(p) or p not in crate.adts:
            continue
        seen.add(p)
        for v in crate.adts[p]["variants"]:
            for f in v["fields"]:
                t = crate.types[f["tyid"]]
                if t["k"] == "adt" and t.get("local"):
                    st.append(t["path"])
    return seen


def zero_type(ctx, arch, crate, E, pub, p):
    where = "%s:%s" % (crate.adts[p]["file"], crate.adts[p]["line"])
    bad = []
    n = walk_adt(crate, E, p, mk("sym", "the_value"), [], bad, 0)
    ctx.count("leaf fields checked", n)
    ctx.ob("zero-on-drop", "%s/%s leaves" % (pub, arch), n > 0, "no field was checked", where)
    for path, why, w in bad or [(None, None, None)]:
        ctx.ob("zero-on-drop", "%s%s/%s" % (pub, "." + path if path else "", arch), path is None, "%s.%s is not zero after the value has been dropped: %s" % (pub, path, why), w or where)


def ecdsa_alias(crate, s):
    """<C as Curve>::PrivateKey -> the private key types of every Curve impl"""
    r = []
    for im in crate.impls:
        if im.get("trait") and im["trait"].split("<")[0].endswith("::Curve"):
            base = im.get("adt") or im.get("self")
            m = base.rsplit("::", 1)[0] if base else None
            name = base.rsplit("::", 1)[-1].lower()
            q = "graviola::mid::%s::PrivateKey" % name
            if q in crate.adts:
                r.append(q)
    return r


def walk_adt(crate, E, p, val, path, bad, d):
    """number of leaf fields checked below ADT p"""
    if d > 8:
        bad.append((".".join(path), "nesting too deep", None))
        return 0
    a = crate.adts[p]
    w = "%s:%s" % (a["file"], a["line"])
    posts = [None]
    if a.get("dtor"):
        f = crate.fns.get(a["dtor"])
        if not f or not f.get("body"):
            bad.append((".".join(path), "its Drop implementation could not be read", w))
            return 0
        outs, av = E.entry(a["dtor"])
        posts = [(o, E.content(o.st, av[0].a[0])) for o in outs]
        w = "%s:%s" % (f["file"], f["line"])
        if not posts:
            bad.append((".".join(path), "its Drop never returns", w))
        me = mk("deref", av[0].a[0][1])
        if all(all_zero(E, c) for _, c in posts):
            return max(1, sum(len(v["fields"]) for v in a["variants"]))
    n = 0
    for vi, v in enumerate(a["variants"]):
        for fi, fl in enumerate(v["fields"]):
            t = crate.types[fl["tyid"]]
            if skip(fl, t):
                continue
            name = path + [fl["name"]]
            ok = False
            if posts[0] is not None:
                def fld(c):
                    if len(a["variants"]) > 1 or a["kind"] == "enum":
                        c = project(c, ("d", vi))
                    return project(c, ("f", fi))
                ok = all(zero_words(E, o, fld(c), fld(me), me) for o, c in posts)
            if ok:
                n += 1
                continue
            # the field's own destructor
            subs = [t["path"]] if t["k"] == "adt" and t.get("local") and t["path"] in crate.adts else []
            if t["k"] == "alias":
                subs = ecdsa_alias(crate, t["s"])
            if subs:
                for q in subs:
                    if posts[0] is not None and crate.adts[q]["kind"] == "struct" and not crate.adts[q].get("dtor"):
                        # fields zeroised from the outer destructor
                        n += walk_fields(crate, E, q, [(o, fld(c)) for o, c in posts], fld(me), me, name, bad, d + 1, w)
                    else:
                        n += walk_adt(crate, E, q, None, name, bad, d + 1)
                continue
            bad.append((".".join(name), "no destructor zeroises it", w))
    return n


def walk_fields(crate, E, p, posts, orig, me, path, bad, d, w):
    n = 0
    for fi, fl in enumerate(crate.adts[p]["variants"][0]["fields"]):
        t = crate.types[fl["tyid"]]
        if skip(fl, t):
            continue
        name = path + [fl["name"]]
        og = project(orig, ("f", fi))
        ps = [(o, project(c, ("f", fi))) for o, c in posts]
        if all(zero_words(E, o, c, og, orig) for o, c in ps):
            n += 1
        elif t["k"] == "adt" and t.get("local") and t["path"] in crate.adts:
            if crate.adts[t["path"]].get("dtor") or crate.adts[t["path"]]["kind"] != "struct":
                n += walk_adt(crate, E, t["path"], None, name, bad, d + 1)
            else:
                n += walk_fields(crate, E, t["path"], ps, og, me, name, bad, d + 1, w)
        else:
            bad.append((".".join(name), "no destructor zeroises it", w))
    return n


def skip(fl, t):
    if PUBLIC_TYPES.search(t["s"].split("<")[0]) or "PhantomData" in t["s"]:
        return True
    if t.get("size") == 0:
        return True
    # ML-KEM: hash of the public encapsulation key
    return t["k"] == "array" and bool(re.search(r"(^|_)ek(_|$)|h_ek|ek_hash|pk_hash", fl["name"]))


def zero_words(E, o, c, orig, owner):
    if all_zero(E, c):
        return True
    # a big integer: words[..used] with the length before it was cleared
    if c.op == "upd" and c.a[0] is orig and c.a[1][0] == "r" and c.a[1][1] is I(0) and all_zero(E, c.a[2]):
        hi = c.a[1][2]
        b, pr = base_of(hi)
        ob, opr = base_of(orig)
        return b is ob and b.op == "deref" and len(pr) == len(opr) and pr[:-1] == opr[:-1] and pr[-1] != opr[-1]
    return False


# ---------------------------------------------------------------- C31
def C31(ctx):
    ctx.rule("ct-equal", "slice comparison returns true only if the lengths are equal and the byte-difference accumulator over all len bytes of both is zero")
    primitives(ctx)
    for arch, crate in archs(ctx):
        n = 0
        for k, f in sorted(crate.fns.items()):
            if not (f.get("local") and f.get("body") and re.search(r"^graviola::low::.*::ct_equal$", k)):
                continue
            n += 1
            E = ctx.engine(crate, opaque=lambda key, path: path.endswith("::ct_compare_bytes"))
            outs, av = E.entry(k)
            ctx.done(E)
            where = ctx.locate(crate, k)
            la, lb = av[0].a[2], av[1].a[2]
            for o in outs:
                r = o.ret
                if r is I(0):
                    ctx.ob("ct-equal", "%s/%s false" % (k, arch), o.st.facts.get(b_eq(la, lb)) is FALSE or any(t.op == "call" and t.a[0].endswith("ct_compare_bytes") for t in dep_facts(o)), "returns false for slices that may be equal", where)
                    continue
                call = None
                if r.op == "eq" and r.a[1] is I(0):
                    call = r.a[0]
                elif r is I(1):
                    for t, v in o.st.facts.items():
                        if t.op == "call" and t.a[0].endswith("ct_compare_bytes") and v is I(0):
                            call = t
                good = call is not None and call.op == "call" and call.a[0].endswith("ct_compare_bytes") and o.st.facts.get(b_eq(la, lb)) is TRUE
                if good:
                    x, y, n_ = call.a[2]
                    good = {strip_at(x), strip_at(y)} == {mk("deref", av[0].a[0][1]), mk("deref", av[1].a[0][1])} and n_ in (la, lb)
                ctx.ob("ct-equal", "%s/%s true" % (k, arch), good, "returns true without comparing all bytes of two slices of equal length (returns %s)" % show(r, 4), where)
        ctx.floor("ct_equal (%s)" % arch, n, 1)


def dep_facts(o):
    return list(o.st.facts)


def primitives(ctx):
    ctx.rule("zeroise", "zeroise passes the whole slice (pointer and size in bytes) and zeroise_value the whole value to zero_bytes")
    ctx.rule("zero-bytes", "the assembly of zero_bytes stores zero to exactly len bytes from ptr, for every len (inductive invariant at each loop head)")
    ctx.rule("compare-bytes", "the assembly of ct_compare_bytes folds a[i]^b[i] for every i < len into the returned accumulator, which starts at zero")
    for arch, crate in archs(ctx):
        nz = nc = nv = 0
        for k, f in sorted(crate.fns.items()):
            if not (f.get("local") and f.get("body")) or not f["path"].startswith("graviola::low::") or "::tests::" in k:
                continue
            if f["path"].endswith("::zero_bytes"):
                nz += 1
                guarded(ctx, k + "/" + arch, zero_bytes, arch, crate, k)
            elif f["path"].endswith("::ct_compare_bytes"):
                nc += 1
                guarded(ctx, k + "/" + arch, compare_bytes, arch, crate, k)
            elif re.search(r"zeroise::zeroise(_value)?$", f["path"]):
                nv += 1
                guarded(ctx, k + "/" + arch, zeroise_fn, arch, crate, k)
        ctx.floor("zero_bytes (%s)" % arch, nz, 1)
        ctx.floor("ct_compare_bytes (%s)" % arch, nc, 1)
        ctx.floor("zeroise instances (%s)" % arch, nv, 6)


def asm_events(E, o):
    return [t for t in o.st.ev if t.op == "call" and t.a[0] == "asm"]


def asm_terms(crate, key, opaque=None):
    r = []
    for b in crate.fns[key]["body"]["blocks"]:
        if isinstance(b["t"], dict) and b["t"].get("k") == "asm":
            r.append(b["t"])
    return r


def in_index(t, n):
    """template operand index of the n-th input"""
    ins = [i for i, o in enumerate(t["ops"]) if o["k"] in ("in", "inout")]
    return ins[n]


def asm_site(crate, ev, info):
    fn, line = info
    for t in asm_terms(crate, fn):
        if t.get("line") == line:
            return t
    return None


def zero_bytes(ctx, arch, crate, k):
    E = ctx.engine(crate, opaque=lambda a, b: False)
    outs, av = E.entry(k)
    ctx.done(E)
    where = ctx.locate(crate, k)
    site = "%s/%s" % (k, arch)
    for o in outs:
        evs = asm_events(E, o)
        if not evs and o.st.facts.get(b_eq(av[1], I(0))) is TRUE:
            continue
        if len(evs) != 1:
            ctx.ob("zero-bytes", site, False, "expected one assembly block on each path, found %d" % len(evs), where)
            continue
        t = asm_site(crate, evs[0], o.st.ev[evs[0]])
        args = list(evs[0].a[2])
        if t is None or av[0] not in args or av[1] not in args:
            ctx.ob("zero-bytes", site, False, "the assembly does not get the pointer and the length", where)
            continue
        try:
            e = asm.check_zeroing(t, arch[0], in_index(t, args.index(av[0])), in_index(t, args.index(av[1])))
        except asm.Undecided as x:
            e = "undecided: %s" % x
        ctx.ob("zero-bytes", site, e is None, str(e), "%s:%s" % (where.split(":")[0], t.get("line")))
        ctx.count("assembly loops proved")


def compare_bytes(ctx, arch, crate, k):
    E = ctx.engine(crate, opaque=lambda a, b: False)
    outs, av = E.entry(k)
    ctx.done(E)
    where = ctx.locate(crate, k)
    site = "%s/%s" % (k, arch)
    for o in outs:
        evs = asm_events(E, o)
        good = len(evs) == 1 and all(x in evs[0].a[2] for x in av[:3])
        if not good:
            ctx.ob("compare-bytes", site, False, "the assembly does not get both pointers and the length", where)
            continue
        t = asm_site(crate, evs[0], o.st.ev[evs[0]])
        args = list(evs[0].a[2])
        # which output is returned
        outsi = [i for i, op in enumerate(t["ops"]) if op["k"] in ("out", "inout") and op.get("p")]
        acc = None
        if o.ret.op == "prj" and o.ret.a[0] is evs[0] and o.ret.a[1][0] == "f":
            acc = outsi[o.ret.a[1][1]]
        if acc is None:
            ctx.ob("compare-bytes", site, False, "the accumulator is not what is returned", where)
            continue
        ins = [i for i, op in enumerate(t["ops"]) if op["k"] in ("in", "inout")]
        ctx.ob("compare-bytes", site + " start", acc in ins and args[ins.index(acc)] is I(0), "the accumulator does not start at zero", where)
        try:
            e = asm.check_compare(t, arch[0], in_index(t, args.index(av[0])), in_index(t, args.index(av[1])), in_index(t, args.index(av[2])), acc)
        except asm.Undecided as x:
            e = "undecided: %s" % x
        ctx.ob("compare-bytes", site, e is None, str(e), "%s:%s" % (where.split(":")[0], t.get("line")))
        ctx.count("assembly loops proved")


def uncast(p):
    p = strip_at(p)
    while p.op == "call" and re.search(r"::cast(_mut|_const)?$|::as_mut_ptr$|::as_ptr$", p.a[0]):
        p = strip_at(p.a[2][0])
    return p


def zeroise_fn(ctx, arch, crate, k):
    E = ctx.engine(crate, opaque=lambda key, path: bool(re.search(r"::_?zero_bytes$", path)))
    outs, av = E.entry(k)
    ctx.done(E)
    where = ctx.locate(crate, k)
    site = "%s/%s" % (k, arch)
    for o in outs:
        calls = [t for t in o.st.ev if t.op == "call" and t.a[0].endswith("zero_bytes")]
        if not calls and o.st.facts.get(b_eq(av[0].a[2], I(0)) if isinstance(av[0].a[2], T) else None) is TRUE:
            continue
        good = len(calls) >= 1
        why = "no call of zero_bytes"
        if good:
            p, n = calls[-1].a[2]
            ty = crate.types[crate.fns[k]["body"]["locals"][1][0]]
            e = crate.types[ty["e"]]
            if e["k"] == "slice":
                want = mulc(av[0].a[2], crate.types[e["e"]]["size"])
            else:
                want = I(e["size"])
            me = mk("deref", av[0].a[0][1])
            good = uncast(p) is me and n is want
            why = "zero_bytes is not given the whole value (gets %s, %s; wants %s)" % (show(p, 4), show(n, 4), show(want, 4))
        ctx.ob("zeroise", site, good, why, where)
