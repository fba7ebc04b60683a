"""C01, C02: authenticated decryption."""
from .core import *
from .q import *

MODE = {"C01": "all", "C02": "all"}


def aead_fns(crate, name):
    """(type, key) of every public AEAD type exported under graviola::aead having method `name`"""
    r = []
    for pub, path, kind in crate.exports:
        if re.match(r"graviola::aead::\w+$", pub) and kind == "Struct":
            k = "%s::%s" % (path, name)
            if k in crate.fns:
                r.append((pub, k))
    return r


def archs(ctx):
    return [("x86_64", ctx.x), ("aarch64", ctx.a)]


def C01(ctx):
    ctx.rule("auth-gate", "every path on which AEAD decryption returns Ok is dominated by a full-length equality test between the "
             "caller's tag and a tag computed from the whole AAD, the whole ciphertext as received, both lengths, the nonce and the key")
    for arch, crate in archs(ctx):
        fs = aead_fns(crate, "decrypt")
        ctx.floor("AEAD decrypt functions (%s)" % arch, len(fs), 3)
        for pub, key in fs:
            guarded(ctx, "%s::decrypt/%s" % (pub, arch), auth_gate, arch, crate, pub, key)
    from . import rules_auth as A
    ctx.rule("tag-transcript", "the 16 bytes compared with the caller's tag are a MAC whose transcript is exactly: AAD, zero padding, ciphertext as "
             "received, zero padding, both lengths, with the per-message key derived from the whole key and nonce, for every residue and threshold of both lengths")
    n = 0
    for arch, crate in archs(ctx):
        for pub, key in aead_fns(crate, "decrypt"):
            n += 1
            guarded(ctx, "%s::decrypt tag/%s" % (pub, arch), A.mid_tag, arch, crate, pub, key)
    ctx.count("AEAD tag transcripts", n)
    ctx.rule("ghash-absorb", "Ghash::add and the AES-GCM kernels (each CPU variant) absorb every 16 byte block of AAD and of ciphertext as received, "
             "once, in order, the last one zero padded, for every residue and threshold of the lengths")
    for arch, crate in archs(ctx):
        ks = [(A.ghash_add, k) for k in crate.fns if re.search(r"^graviola::low::\w+::ghash::Ghash(::<.*>)?::add$", crate.fns[k]["path"]) and crate.fns[k].get("body")]
        ks += [(A.gcm_kernel, k) for k in crate.fns if re.search(r"^graviola::low::\w+::aes_gcm::decrypt$", crate.fns[k]["path"]) and crate.fns[k].get("body")]
        ctx.count("GHASH layers", len(ks))
        for fn, k in ks:
            guarded(ctx, "%s/%s" % (k, arch), fn, arch, crate, k)


def auth_gate(ctx, arch, crate, pub, key):
    E = ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    self_, nonce, aad, cin, tag = av
    oks = [o for o in outs if is_ok(o)]
    errs = [o for o in outs if is_err(o)]
    site = "%s::decrypt/%s" % (pub, arch)
    ctx.ob("auth-gate", site + " outcomes", oks and errs and len(oks) + len(errs) == len(outs),
           "decrypt must have both success and failure outcomes; found %d Ok, %d Err of %d" % (len(oks), len(errs), len(outs)), where)
    d = lambda p: mk("deref", p.a[0][1])
    for i, o in enumerate(oks):
        best = None
        for kind, x, y in equalities(E, o):
            if x is d(tag):
                x, y = y, x
            if y is not d(tag):
                continue
            miss = []
            if not covers_whole(E, x, d(aad)):
                miss.append("the whole AAD (covers: %s)" % covers(E, x, d(aad)))
            if not covers_whole(E, x, d(cin)):
                miss.append("the whole received ciphertext (covers: %s)" % covers(E, x, d(cin)))
            if not covers_whole(E, x, d(nonce)):
                miss.append("the nonce")
            if not covers(E, x, d(self_)):
                miss.append("the key")
            for nm, p in (("aad", aad), ("ciphertext", cin)):
                if not depends(E, x, lambda t: t is mk("len", p.a[0][1])):
                    miss.append("the length of the " + nm)
            if covers(E, x, d(tag)):
                miss.append("only non-attacker-chosen data: it depends on the received tag itself")
            if best is None or len(miss) < len(best):
                best = miss
        ctx.ob("auth-gate", site + " Ok path", best == [],
               "a path to Ok (%s) is not gated by a comparison of the complete tag with one that depends on: %s" % (
                   o.where, "any computed tag (no dominating full-length tag equality)" if best is None else "; ".join(best)), where)
    ctx.count("Ok paths", len(oks))
    ctx.count("Err paths", len(errs))


def C02(ctx):
    ctx.rule("clear-on-failure", "on every path on which AEAD decryption returns an error, the whole caller buffer is either zero or still the ciphertext as received")
    for arch, crate in archs(ctx):
        fs = aead_fns(crate, "decrypt")
        ctx.floor("AEAD decrypt functions (%s)" % arch, len(fs), 3)
        for pub, key in fs:
            guarded(ctx, "%s::decrypt/%s" % (pub, arch), clear_fail, arch, crate, pub, key)


def clear_fail(ctx, arch, crate, pub, key):
    E = ctx.engine(crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    cin = av[3]
    obj = cin.a[0]
    root = mk("deref", obj[1])
    for o in outs:
        if is_ok(o):
            continue
        c = E.content(o.st, obj)
        ok = c is root or filled(E, o, c, root)
        ctx.ob("clear-on-failure", "%s::decrypt/%s Err path" % (pub, arch), ok,
               "a failing path (%s) leaves in the caller's buffer: %s" % (o.where, show(c, 5)), where)
        ctx.count("Err paths")
