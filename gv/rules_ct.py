"""Constant time: no secret reaches a branch, an address, a division or a variable-time comparison (C07)."""
import re
from . import isa
from .core import guarded
from .q import *
from .rules_ec import archs
from .rules_api import Secrets
from .rules_asm import opinfo, Defs
from .rules_cpu import api_fns
from .taint import *

PUBLIC = re.compile(r"^graviola::(mid|high)::.*::(EncapKey|RsaPublicKey|VerifyingKey|Ed25519VerifyingKey|PublicKey)$")
# byte parameters that are secrets of the caller
BYTES = [
    (re.compile(r"aead|aes_gcm|chacha20poly1305"), {"key", "cipher_inout"}),
    (re.compile(r"::hmac::Hmac"), {"key", "bytes"}),
    (re.compile(r"hash::|::sha2::|::sha3::"), {"bytes", "message"}),
    (re.compile(r"Ed25519SigningKey::from_bytes$"), {"seed"}),
    (re.compile(r"(StaticPrivateKey|DecapKey|PrivateKey)::(from_bytes|from_array|try_from_slice)$"), {"bytes", "b", "input"}),
    (re.compile(r"HashOutput"), {"self"}),
]


def into_public(T, fr, st, key, path, args, tys):
    return scrub(args[0])


def public_slice(T, fr, st, key, path, args, tys):
    for l in args[0].p:
        T.write(st, [l], scrub(T.read(st, [l], None)))
    return CLEAN


def into_secret(T, fr, st, key, path, args, tys):
    return smear(args[0])


def secret_slice(T, fr, st, key, path, args, tys):
    for l in args[0].p:
        T.write(st, [l], smear(T.read(st, [l], None)))
    return CLEAN


def rng(T, fr, st, key, path, args, tys):
    if "public-salt" in T.mode:
        return CLEAN
    T.write(st, [(o, p, True) for o, p, w in args[-1].p], TAINT)
    return CLEAN


def tag_compare(T, fr, st, key, path, args, tys):
    """the comparison itself is analysed; whether a tag was accepted is public"""
    r = T.call_fn(key, args, st, fr)
    return scrub(r) if "verdict" in T.mode else r


def fault_check(T, fr, st, key, path, args, tys):
    """a computed point is always on its curve unless there was a fault: checking that reveals nothing"""
    return T.call_fn(key, [T.public_copy(st, a, "%s.%d" % (fr.line, i)) for i, a in enumerate(args)], st, fr)


OVER = [
    (re.compile(r"::ct_equal::ct_equal$|low::ct_equal$"), tag_compare), (re.compile(r"mid::p(256|384)::AffineMontPoint::on_curve$"), fault_check),
    (re.compile(r"low::ct::into_public$"), into_public), (re.compile(r"low::ct::public_slice$"), public_slice),
    (re.compile(r"low::ct::into_secret$"), into_secret), (re.compile(r"low::ct::secret_slice$"), secret_slice),
    (re.compile(r"RandomSource(>)?::fill$"), rng),
]


# (entry, what the analysis takes as public in it)
MODES = [
    (re.compile(r"::(decrypt|verify)$"), "verdict"),
    # the encoded message can be computed from the signature
    (re.compile(r"high::rsa::SigningKey::sign"), "public-salt"),
]
# not constant-time, by nature (primality testing) or by format (DER's minimal-length integers)
EXCLUDED = re.compile(r"high::rsa::SigningKey::(generate|from_pkcs\w+|to_pkcs\w+)$")


def public_makers(crate):
    """functions that make a value of a non-byte type stored in ML-KEM's encapsulation key: the matrix, whose seed
    is derived from a secret but published in that key"""
    sig = lambda t: (crate.types[t].get("path"), str(crate.types[t].get("variants")))
    types = {sig(fl["tyid"]) for p, a in crate.adts.items() if p.endswith("mlkem768::EncapKey")
             for v in a["variants"] for fl in v["fields"] if crate.types[fl["tyid"]]["k"] == "adt"}
    return lambda f: sig(f["body"]["locals"][0][0]) in types


def blocks(crate, arch, memo):
    def get(key, f, t):
        r = memo.get(id(t))
        if r is None:
            r = memo[id(t)] = isa.Asm(t, arch[0], opinfo(crate, f, t))
            r.run()
        return r
    return get


def arg_value(T, st, i, ty, secret):
    """an argument of type ty: pointers lead to fresh objects; secret marks all content"""
    def build(t, depth):
        y = T.ty(t)
        if y["k"] in ("ref", "ptr"):
            o = ("A", "%d.%d" % (i, depth))
            st.m[o] = build(y["e"], depth + 1) if depth < 4 else (DEEP if secret else CLEAN)
            return V.make(p=frozenset([loc(o)]))
        if y["k"] in ("array", "slice"):
            e = T.ty(y["e"])
            if e["k"] in ("ref", "ptr", "array"):
                return build(y["e"], depth)
        return DEEP if secret else CLEAN
    return build(ty, 0)


def run_api(ctx, T, S, crate, k, f, args):
    body = f["body"]
    st = St()
    vals, sec = [], []
    for i in range(body["argc"]):
        t, name = body["locals"][i + 1]
        s = S.ty_secret(args[i]) or any(r.search(f["path"]) and name in n for r, n in BYTES)
        if s:
            sec.append(name)
        vals.append(arg_value(T, st, i, t, s))
    fr = Frame(k, f)
    T.mode = frozenset(m for r, m in MODES if r.search(f["path"]))
    T.call_fn(k, vals, st, fr)
    return sec, fr.sinks


def C07(ctx):
    ctx.rule("ct-flow", "information flow from the secrets an exported function receives or draws, through every call, field, slice and assembly block: none decides a branch, a loop's length, an address or index, an operand of a division, or a variable-time comparison")
    S = Secrets(ctx)
    for arch, crate in archs(ctx):
        T = Taint(crate, arch, PUBLIC, blocks(crate, arch, {}), overrides=OVER)
        T.makes_public = public_makers(crate)
        n = m = 0
        told = set()
        for k, f, args, ret in api_fns(crate):
            if EXCLUDED.search(f["path"]):
                m += 1
                continue
            try:
                sec, sinks = run_api(ctx, T, S, crate, k, f, args)
            except RecursionError:
                ctx.ob("ct-flow", "%s/%s" % (k, arch), False, "the analysis did not finish", "%s:%s" % (f["file"], f["line"]))
                continue
            n += bool(sec)
            new = [s for i, s in sorted(sinks.items(), key=lambda x: (x[1].file, x[1].line)) if i not in told]
            told |= set(sinks)
            for s in new:
                ctx.ob("ct-flow", "%s %s %s" % (arch, s.key, s.kind + (" `%s`" % s.text if s.text else "")), False,
                       "%s%s in %s, reached from %s%s" % (s.kind, " `%s`" % s.text if s.text else "", s.key.replace("graviola::", ""), f["path"].replace("graviola::", ""),
                                                         " through " + " > ".join(x.split("graviola::")[-1] for x in s.chain[1:]) if len(s.chain) > 1 else ""), "%s:%s" % (s.file, s.line))
            if not new:
                ctx.ob("ct-flow", "%s/%s" % (k, arch), True, "", "%s:%s" % (f["file"], f["line"]))
        ctx.analysed |= set(T.visited)
        ctx.floor("exported functions taking secrets (%s)" % arch, n, 60)
        ctx.floor("functions analysed with secret data (%s)" % arch, len(T.secret_fns), 400)
        for w, x in sorted(T.points.items()):
            ctx.count("%s examined (%s)" % (w, arch), len(x))
        ctx.floor("branches and addresses in assembly examined (%s)" % arch, len(T.points.get("assembly branches and addresses", ())), 150)
        ctx.count("excluded functions (%s)" % arch, m)
        for p in sorted(T.unmodelled):
            ctx.count("library function without body or model (result taken to depend on all it can read): %s" % p, T.unmodelled[p])
