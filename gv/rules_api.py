"""What the API shape itself guarantees: nothing formats secrets (C06), ephemeral keys are single-use (C21),
unsafe code stays in `low` and the layers hold (C22), no shared mutable state and no ambient effects (C23)."""
import re
from .core import guarded
from .engine import *
from .engine import DEFAULT_OPAQUE
from .q import *
from .rules_ec import archs
from .rules_mem import SECRET, PUBLIC_TYPES

FMT = {"core::fmt::Debug", "core::fmt::Display", "core::fmt::LowerHex", "core::fmt::UpperHex", "core::fmt::Binary",
       "core::fmt::Octal", "core::fmt::Pointer", "core::fmt::LowerExp", "core::fmt::UpperExp", "core::error::Error", "alloc::string::ToString"}
# secret-holding types that are not exported by name but sit inside TLS or deterministic-signing state
EXTRA_SECRET = [r"^graviola::high::hmac::Hmac$", r"HmacDrbg$", r"^rustls::crypto::cipher::(AeadKey|Iv)$", r"^graviola::mid::mlkem768::(Message|KpkeRandomness)$"]
SECRET_DYN = re.compile(r"dyn rustls::crypto::(ActiveKeyExchange|cipher::Message(En|De)crypter|hmac::Key)|dyn rustls::crypto::sign(er)?::(SigningKey|Signer)")


def paths_in(s):
    return re.findall(r"[A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z_][A-Za-z0-9_]*)+", s)


class Secrets:
    """which ADTs hold secrets: the exported secret types, every local type that erases itself on drop, and all that contain one"""

    def __init__(self, ctx):
        self.roots = set()
        self.adts = {}
        for arch, crate in archs(ctx) + [("r", ctx.r)]:
            for p, a in crate.adts.items():
                self.adts.setdefault(p, (crate, a))
        for pub, p, kind in ctx.x.exports:
            if kind in ("Struct", "Enum") and any(re.search(s, pub) for s in SECRET):
                self.roots.add(p)
        for p, (crate, a) in self.adts.items():
            if a.get("dtor") and a["dtor"].split("::")[0].lstrip("<") == crate.name and erases(crate, a["dtor"]):
                self.roots.add(p)
            if any(re.search(s, p) for s in EXTRA_SECRET):
                self.roots.add(p)
        self.memo = {}

    def ty_secret(self, s, busy=()):
        """does a value of this type contain (or own) a secret?"""
        if s in self.memo:
            return self.memo[s]
        r = bool(SECRET_DYN.search(s))
        if not re.search(r"(^|[^A-Za-z])fn\(", s):
            for p in paths_in(s):
                if p in self.roots or any(re.search(x, p) for x in EXTRA_SECRET):
                    r = True
                elif p in self.adts and p not in busy and not PUBLIC_TYPES.search(p):
                    crate, a = self.adts[p]
                    for v in a["variants"]:
                        for f in v["fields"]:
                            if self.ty_secret(f["ty"], busy + (p,)):
                                r = True
        if not busy:
            self.memo[s] = r
        return r

    def holder(self, p):
        return p in self.roots or self.ty_secret(p)

    def field(self, adt, i):
        """('secret'|'public'|'mixed', adt path or None) of field number i"""
        if adt not in self.adts:
            return "mixed", None
        fs = [v["fields"][i] for v in self.adts[adt][1]["variants"] if i < len(v["fields"])]
        kinds = set()
        sub_ = None
        for f in fs:
            t = f["ty"]
            if PUBLIC_TYPES.search(t.split("<")[0]) or t in ("usize", "bool", "()"):
                kinds.add("public")
            elif adt in self.roots:
                kinds.add("secret")
            elif self.ty_secret(t):
                kinds.add("mixed")
                sub_ = t
            else:
                kinds.add("public")
        if kinds == {"public"}:
            return "public", None
        return ("secret", None) if "secret" in kinds else ("mixed", sub_)


def erases(crate, dtor):
    """the destructor writes zeros: it reaches the zeroise helpers or any volatile/asm store"""
    seen, st = set(), [dtor]
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        if re.search(r"zeroise|_?zero_bytes", k):
            return True
        f = crate.fns.get(k)
        if f and f.get("body"):
            for c, t in call_sites(f):
                if c:
                    st += [c["key"], c.get("rpath") or c["path"]]
    return False


DECLASS = re.compile(r"::(public_key\w*|verifying_key|encapsulation_key|len|modulus_len_bytes|is_empty)$")


def C06(ctx):
    ctx.rule("fmt-hides-secrets", "an implementation of a formatting trait for a type that contains a secret neither reads a secret field nor hands the whole value to a function that is not inlined")
    ctx.rule("no-secret-in-message", "values handed to format/panic/print machinery outside formatting impls are error values, names, lengths or selectors, never keys, big integers, scalars or bytes")
    ctx.rule("errors-carry-no-data", "the error types of the crates contain no bytes, numbers or owned data")
    ctx.rule("no-variable-time-eq", "no secret-holding type has a derived (early-exit) equality or ordering, or a derived Hash")
    S = Secrets(ctx)
    ctx.floor("self-erasing or exported secret types", len(S.roots), 20)
    crates = archs(ctx) + [("rustls", ctx.r)]
    for arch, crate in crates:
        n = nh = 0
        for im in crate.impls:
            tr = im.get("trait")
            adt = im.get("adt")
            if tr in FMT and adt:
                n += 1
                if S.holder(adt):
                    nh += 1
                    guarded(ctx, "%s for %s/%s" % (tr, adt, arch), fmt_impl, arch, crate, S, im, tr, adt)
            if tr in ("core::cmp::PartialEq", "core::cmp::PartialOrd", "core::cmp::Ord", "core::hash::Hash") and adt and S.holder(adt):
                ctx.ob("no-variable-time-eq", "%s for %s/%s" % (tr, adt, arch), not im.get("derived"), "%s holds secrets and derives %s" % (adt, tr), "%s:%s" % (im["file"], im["line"]))
        ctx.floor("formatting impls (%s)" % arch, n, 18 if arch == "rustls" else 25)
        ctx.floor("formatting impls of secret-holding types (%s)" % arch, nh, 6 if arch == "rustls" else 3)
        messages(ctx, arch, crate, S)
    error_types(ctx)


def fmt_impl(ctx, arch, crate, S, im, tr, adt):
    where = "%s:%s" % (im["file"], im["line"])
    for name, key in im["items"]:
        f = crate.fns.get(key)
        site = "<%s as %s>::%s/%s" % (adt, tr, name, arch)
        if not f or not f.get("body"):
            # generic impl: analyse it under any instance the crate has
            ks = [k for k in crate.fns if k.split("::<")[0] == key.split("::<")[0] and crate.fns[k].get("body")]
            if not ks:
                ctx.ob("fmt-hides-secrets", site, False, "the body of this formatting function was not found", where)
                continue
            key = ks[0]
        E = ctx.engine(crate, opaque=lambda k, p: bool(DEFAULT_OPAQUE.match(p)) or bool(DECLASS.search(p)) or p.startswith("core::fmt") or p.startswith("alloc::fmt"))
        outs, av = E.entry(key)
        bad = set()
        calls = 0
        for o in outs:
            for t in list(o.st.ev) + [E.view(o.st, o.ret)]:
                if t.op == "call":
                    calls += 1
                leaks(E, S, adt, t, av[0].a[0][1], bad, set(), o)
        ctx.done(E)
        ctx.count("formatting calls inspected", calls)
        ctx.ob("fmt-hides-secrets", site, not bad, "formatting %s hands out %s" % (adt, ", ".join(sorted(bad))), where)


def leaks(E, S, adt, t, self_, bad, seen, o):
    """collect the secret parts of *self that the term t contains"""
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x.op == "call" and DECLASS.search(x.a[1] if isinstance(x.a[1], str) else ""):
            continue
        if x.op in ("len", "disc"):
            continue
        if x.op == "phi":
            st.extend(E.phis.get(x, ()))
            continue
        if x.op in ("prj", "deref") or x.op == "ref":
            root, pr = chain(x)
            if root is self_:
                w = secret_path(S, adt, pr)
                if w:
                    bad.add(w)
                continue
        st.extend(x.a)


def chain(x):
    """(innermost term, projections) through prj, deref and references to symbolic places"""
    pr = []
    while True:
        if x.op == "prj":
            pr.append(x.a[1])
            x = x.a[0]
        elif x.op == "deref":
            pr.append("*")
            x = x.a[0]
        elif x.op == "at":
            x = x.a[0]
        elif x.op == "ref" and isinstance(x.a[0], tuple) and x.a[0][0] == "S":
            for p in reversed(x.a[1] or ()):
                pr.append(p)
            pr.append("*")
            x = x.a[0][1]
        else:
            break
    pr.reverse()
    return x, pr


def secret_path(S, adt, pr):
    names = []
    cur = adt
    for p in pr:
        if p == "*" or not isinstance(p, tuple):
            continue
        if p[0] in ("d", "v"):
            continue
        if p[0] == "f" and cur is not None:
            k, nxt = S.field(cur, p[1])
            names.append(field_name(S, cur, p[1]))
            if k == "public":
                return None
            if k == "secret":
                return "self." + ".".join(names)
            nx = [q for q in paths_in(nxt or "") if q in S.adts and S.holder(q)]
            if len(nx) != 1:
                return "self." + ".".join(names)
            # smart pointers around it add projections we cannot name: treat whatever follows as the inner value
            cur = nx[0] if (nxt or "").startswith(nx[0]) else None
            if cur is None:
                return "self." + ".".join(names)
    return "self" + "".join("." + n for n in names) + " (whole)"


def field_name(S, adt, i):
    for v in S.adts[adt][1]["variants"]:
        if i < len(v["fields"]):
            return str(v["fields"][i]["name"])
    return str(i)


PRINT = re.compile(r"^core::fmt::rt::Argument|^core::panicking::assert_failed|^core::result::Result::<T, E>::(unwrap|expect|unwrap_err|expect_err)$|^std::io::stdio::_e?print|^core::panicking::panic_display|^std::rt::begin_panic|^std::panic::panic_any|::to_string$")
SAFE_ARG = re.compile(r"^(&(mut )?)*(usize|bool|char|str|&str|alloc::string::String|core::fmt::Arguments<.*>|\(\)|core::array::TryFromSliceError|core::num::.*Error|graviola::error::(Error|KeyFormatError)|graviola::high::asn1::Error|rustls::.*(Error|SignatureScheme|NamedGroup|ProtocolVersion|CipherSuite|ContentType|SignatureAlgorithm)|&'static str|graviola::mid::rsa_priv::generate::KeySize|getrandom::.*Error)$")


def called_closure(crate):
    """functions that something outside themselves can reach: exported or trait items, and all they reference"""
    roots = [k for k, f in crate.fns.items() if f.get("reachable")]
    for im in crate.impls:
        if im.get("trait"):
            roots += [k for _, k in im["items"]]
    byname = {}
    for k, f in crate.fns.items():
        byname.setdefault(f["path"], []).append(k)
    refs = {}
    seen = set()
    st = list(roots)
    while st:
        k = st.pop()
        for kk in [k] + byname.get(k, []):
            if kk in seen or kk not in crate.fns:
                continue
            seen.add(kk)
            f = crate.fns[kk]
            st.append(f["path"])
            b = f.get("body")
            if b:
                st.extend(fn_refs(b))
    return seen


def fn_refs(x):
    """keys of all functions and closures mentioned anywhere in a body"""
    out = []
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            if "key" in y and "path" in y:
                out.append(y["key"])
                out.append(y.get("rpath") or y["path"])
            if isinstance(y.get("closure"), str):
                out.append(y["closure"])
            st.extend(y.values())
        elif isinstance(y, list):
            if len(y) >= 2 and y[0] == "closure" and isinstance(y[1], str):
                out.append(y[1])
            st.extend(y)
    return out


def messages(ctx, arch, crate, S):
    live = called_closure(crate)
    own = set()
    for im in crate.impls:
        if im.get("trait") in FMT:
            own |= {k for _, k in im["items"]}
    n = 0
    for k, f in sorted(crate.fns.items()):
        if not f.get("local") or not f.get("body") or k in own or f["path"] in own:
            continue
        if k not in live:
            continue
        for c, t in call_sites(f):
            if not c:
                continue
            p = c.get("rpath") or c["path"]
            if not PRINT.search(p):
                continue
            n += 1
            ts = [crate.types[x]["s"] for x in c.get("targs", []) if isinstance(x, int)]
            if re.search(r"Result::<T, E>::(unwrap|expect)$", p):
                ts = ts[1:]
            elif re.search(r"Result::<T, E>::(unwrap_err|expect_err)$", p):
                ts = ts[:1]
            bad = [s for s in ts if not SAFE_ARG.match(s) and not s.startswith("'")]
            if re.search(r"_e?print", p):
                bad = ["standard output"]
            ctx.ob("no-secret-in-message", "%s -> %s %s/%s" % (f["path"], p, " ".join(ts), arch), not bad, "%s is formatted into a message in %s" % (", ".join(bad), f["path"]), "%s:%s" % (f["file"], t.get("line")))
    ctx.count("message-producing call sites", n)
    ctx.floor("message-producing call sites (%s)" % arch, n, 10)


def error_types(ctx):
    for arch, crate in archs(ctx) + [("rustls", ctx.r)]:
        n = 0
        for p, a in sorted(crate.adts.items()):
            if not re.search(r"Error$", p) or not p.startswith(crate.name):
                continue
            n += 1
            for v in a["variants"]:
                for f in v["fields"]:
                    t = f["ty"]
                    ok = bool(SAFE_ARG.match(t)) and not re.search("usize|String|Arguments|char", t) or re.search(r"Error$", t) is not None
                    ctx.ob("errors-carry-no-data", "%s::%s.%s/%s" % (p, v["name"], f["name"], arch), ok, "error type %s carries %s" % (p, t), "%s:%s" % (a["file"], a["line"]))
        if arch != "rustls":
            ctx.floor("error types (%s)" % arch, n, 3)


# ------------------------------------------------------------------------------------------------ C21
EPH = re.compile(r"key_agreement::(x25519|p256|p384)::PrivateKey$")
DUP = {"core::clone::Clone", "core::marker::Copy", "core::convert::AsRef", "core::convert::AsMut", "core::borrow::Borrow", "core::ops::deref::Deref",
       "core::ops::deref::DerefMut", "core::ops::index::Index", "core::default::Default", "core::iter::traits::collect::IntoIterator"}


def sig_of(crate, f):
    """(argument type strings, return type string) of a function with a body"""
    b = f["body"]
    ls = [crate.types[l[0] if isinstance(l, list) else l["ty"]]["s"] for l in b["locals"][:b["argc"] + 1]]
    return ls[1:], ls[0]


def mentions(s, path):
    """does this type string own or borrow exactly this ADT (not a longer path)?"""
    return re.search(r"(?<![A-Za-z0-9_:])" + re.escape(path) + r"(?![A-Za-z0-9_:])", s) is not None


def borrowed(s, path):
    """is every mention of the type behind a reference or pointer?"""
    t = re.sub(r"[&*](?:'[a-z_]+ )?(?:mut |const )?" + re.escape(path) + r"(?![A-Za-z0-9_:])", "", s)
    return not mentions(t, path)


def C21(ctx):
    ctx.rule("no-copies", "an ephemeral private key implements none of Clone, Copy, AsRef, Borrow, Deref, Index, Default, IntoIterator, and no conversion produces or exposes it")
    ctx.rule("consumed-by-agreement", "an exported function that yields a shared secret from an ephemeral private key takes the key by value and does not give it back")
    ctx.rule("no-export", "an exported function given an ephemeral private key by reference returns only its public key, and one given it by value never returns a static key, its bytes, or the key itself")
    ctx.rule("fresh-origin", "an exported function that returns an ephemeral private key takes no input: the key can only come from the system's random source")
    ctx.rule("private-fields", "an ephemeral private key has no public field, and no unsafe duplication (ptr::read, transmute, MaybeUninit) is instantiated at its type")
    ctx.rule("rustls-consumes", "a started rustls key exchange stores its ephemeral key by value and is completed only by value (Box<Self>)")
    for arch, crate in archs(ctx):
        eph = {pub: p for pub, p, k in crate.exports if EPH.search(pub)}
        ctx.floor("ephemeral private key types (%s)" % arch, len(eph), 3)
        for pub, p in sorted(eph.items()):
            guarded(ctx, "%s/%s" % (pub, arch), eph_type, arch, crate, pub, p)
    eph_rustls(ctx)


def eph_type(ctx, arch, crate, pub, p):
    a = crate.adts[p]
    where = "%s:%s" % (a["file"], a["line"])
    mod = p.rsplit("::", 1)[0]
    for v in a["variants"]:
        for f in v["fields"]:
            ctx.ob("private-fields", "%s.%s/%s" % (pub, f["name"], arch), not f.get("pub"), "field %s of %s is public" % (f["name"], pub), where)
    for im in crate.impls:
        tr = im.get("trait")
        if not tr:
            continue
        w = "%s:%s" % (im["file"], im["line"])
        if im.get("adt") == p and tr in DUP:
            ctx.ob("no-copies", "%s for %s/%s" % (tr, pub, arch), False, "%s implements %s" % (pub, tr), w)
        if re.search(r"convert::(Try)?(From|Into)$", tr) and mentions(im.get("trait_full") or "", p):
            ctx.ob("no-copies", "%s/%s" % (im["trait_full"], arch), False, "a conversion produces or takes an ephemeral key: %s" % im["trait_full"], w)
    ctx.ob("no-copies", "%s/%s" % (pub, arch), True)
    n = 0
    agree = 0
    traitfns = {}
    for im in crate.impls:
        if im.get("trait"):
            for _, k in im["items"]:
                traitfns[k] = im["trait"]
    sizes = {"[u8; 65]", "[u8; 97]"}
    for k, f in sorted(crate.fns.items()):
        if not f.get("local") or not f.get("body"):
            continue
        for c, t in call_sites(f):
            if c and re.search(r"ptr::(read\w*|replace)$|transmute|MaybeUninit|ptr::mut_ptr|ptr::const_ptr.*::(read|cast)|mem::(take|replace)$|slice::raw::from_raw_parts", c.get("rpath") or c["path"]):
                ts = [crate.types[x]["s"] for x in c.get("targs", []) if isinstance(x, int)]
                ctx.ob("private-fields", "%s at %s/%s" % (c["path"], f["path"], arch), not any(mentions(s, p) for s in ts), "%s duplicates or reinterprets %s" % (c["path"], pub), "%s:%s" % (f["file"], t.get("line")))
        exported = f.get("reachable") or traitfns.get(k)
        if not exported or f.get("kind") == "Closure":
            continue
        args, ret = sig_of(crate, f)
        takes = [s for s in args if mentions(s, p)]
        w = "%s:%s" % (f["file"], f["line"])
        site = "%s/%s" % (f["path"], arch)
        if traitfns.get(k) in FMT or traitfns.get(k) == "core::ops::drop::Drop":
            continue
        if takes:
            n += 1
            byref = all(borrowed(s, p) for s in takes)
            if mentions(ret, mod + "::SharedSecret") or re.search(r"SharedSecret", ret):
                agree += 1
                ctx.ob("consumed-by-agreement", site, not any(borrowed(s, p) for s in takes), "%s yields a shared secret from %s without consuming it" % (f["path"], ", ".join(takes)), w)
                ctx.ob("consumed-by-agreement", site + " returned", not mentions(ret, p), "%s gives the key back: %s" % (f["path"], ret), w)
            elif byref:
                bare = re.sub(r"^core::result::Result<(.*), graviola::error::Error>$", r"\1", ret)
                ok = mentions(bare, mod + "::PublicKey") and not mentions(bare, p) or bare in sizes or bare in ("bool", "()", "usize")
                mutargs = [s for s in args if re.search(r"&('[a-z_]+ )?mut (?!.*dyn )", s)]
                ctx.ob("no-export", site, ok and not mutargs, "%s returns %s from a borrowed ephemeral key" % (f["path"], ", ".join([ret] + mutargs)), w)
            else:
                ok = mentions(ret, mod + "::PublicKey") or ret == "()"
                ctx.ob("no-export", site, ok, "%s turns an ephemeral key into %s" % (f["path"], ret), w)
        if mentions(ret, p) and not takes:
            ctx.ob("fresh-origin", site, not args, "%s makes an ephemeral key from its caller's input (%s)" % (f["path"], ", ".join(args)), w)
            n += 1
    ctx.count("exported functions over ephemeral keys", n)
    ctx.floor("agreement functions of %s (%s)" % (pub, arch), agree, 1)
    ctx.floor("exported functions of %s (%s)" % (pub, arch), n, 3)


def eph_rustls(ctx):
    x, r = ctx.x, ctx.r
    eph = [p for pub, p, k in x.exports if EPH.search(pub)] + [p for pub, p, k in x.exports if re.search(r"mlkem768::DecapKey$", pub)]
    n = 0
    for p, a in sorted(r.adts.items()):
        if not p.startswith(r.name):
            continue
        for v in a["variants"]:
            for f in v["fields"]:
                e = [q for q in eph if mentions(f["ty"], q)]
                if e:
                    n += 1
                    plain = f["ty"] in e or re.match(r"(alloc::boxed::Box|core::option::Option)<%s>$" % re.escape(e[0]), f["ty"])
                    w = "%s:%s" % (a["file"], a["line"])
                    ctx.ob("rustls-consumes", "%s.%s" % (p, f["name"]), plain and not f.get("pub"), "%s holds an ephemeral key as %s" % (p, f["ty"]), w)
                    dup = [im["trait"] for im in r.impls if im.get("adt") == p and im.get("trait") in DUP]
                    ctx.ob("rustls-consumes", "%s duplication" % p, not dup, "%s implements %s" % (p, dup), w)
    ctx.floor("rustls key exchange types holding ephemeral keys", n, 4)
    for im in r.impls:
        if im.get("trait") == "rustls::crypto::ActiveKeyExchange":
            for name, k in im["items"]:
                f = r.fns.get(k)
                if not f or not f.get("body"):
                    continue
                args, ret = sig_of(r, f)
                if re.search("SharedSecret", ret):
                    ctx.ob("rustls-consumes", "%s::%s" % (im["self"], name), args[0].startswith("alloc::boxed::Box<"), "%s completes a borrowed key exchange" % f["path"], "%s:%s" % (f["file"], f["line"]))
    for k, f in r.fns.items():
        if f.get("local") and f.get("body"):
            for c, t in call_sites(f):
                if c and re.search(r"::StaticPrivateKey::", c.get("rpath") or c["path"]):
                    ctx.ob("rustls-consumes", "%s at %s" % (c["path"], f["path"]), not re.search(r"kx", f["file"]), "a reusable static key is used for TLS key exchange in %s" % f["path"], "%s:%s" % (f["file"], t.get("line")))


# ------------------------------------------------------------------------------------------------ C22
def layer(crate, path_or_file):
    m = re.search(r"graviola/src/(low|mid|high)(/|\.rs)", path_or_file)
    return m.group(1) if m else None


def raw_derefs(crate, f):
    """places in the body that dereference a raw pointer other than the pointer inside a Box"""
    ls = f["body"]["locals"]
    boxed = set()
    for b in f["body"]["blocks"]:
        for s in b["s"]:
            if isinstance(s, list) and s and s[0] == "=" and isinstance(s[2], list) and s[2][0] == "cast" and s[2][1] in ("Transmute", "BoxDerefTransmute") and not s[1][1]:
                src = s[2][2]
                if s[2][1] == "BoxDerefTransmute" or src[0] in ("c", "m") and "NonNull" in place_ty(crate, ls, src[1]):
                    boxed.add(s[1][0])
    out = []
    st = [(b, None) for b in f["body"]["blocks"]]
    while st:
        x, line = st.pop()
        if isinstance(x, dict):
            st.extend((v, x.get("line", line)) for v in x.values())
        elif isinstance(x, list):
            if len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], list) and "*" in x[1] and x[0] not in boxed and x[0] < len(ls):
                for i, p in enumerate(x[1]):
                    if p == "*" and is_raw(place_ty(crate, ls, [x[0], x[1][:i]])):
                        out.append(line)
            ln = x[-1] if x and isinstance(x[-1], int) and isinstance(x[0], str) else line
            st.extend((v, ln) for v in x if isinstance(v, (list, dict)))
    return out


def is_raw(s):
    return s.startswith("*const ") or s.startswith("*mut ")


def place_ty(crate, ls, pl):
    l, pr = pl
    if l >= len(ls):
        return "?"
    s = crate.types[ls[l][0] if isinstance(ls[l], list) else ls[l]["ty"]]["s"]
    for p in pr:
        if p == "*":
            s = re.sub(r"^(&('[a-z_]+ )?(mut )?|\*const |\*mut )", "", s)
        elif isinstance(p, list) and p[0] == "f" and len(p) > 2:
            s = crate.types[p[2]]["s"]
        else:
            s = "?"
    return s


def C22(ctx):
    ctx.rule("unsafe-only-in-low", "outside graviola's `low` module no function is unsafe, calls an unsafe function, dereferences a raw pointer, contains inline assembly or touches a mutable static; no type is manually Send or Sync outside it")
    ctx.rule("layering", "`low` refers to nothing in `mid` or `high`, and `mid` to nothing in `high` (the error type excepted)")
    ctx.rule("platform-agnostic", "the functions of `mid` and `high` are the same on x86_64 and aarch64: same set, same signatures, same calls up to the platform's own `low` module")
    ctx.rule("same-api", "both architectures export the same items with the same signatures")
    for arch, crate in archs(ctx) + [("rustls", ctx.r)]:
        nf = nc = 0
        lay = {}
        for k, f in crate.fns.items():
            if f.get("local"):
                lay[f["path"]] = layer(crate, f["file"])
        for k, f in sorted(crate.fns.items()):
            if not f.get("local") or not f.get("body"):
                continue
            L = layer(crate, f["file"])
            w = "%s:%s" % (f["file"], f["line"])
            site = "%s/%s" % (f["path"], arch)
            nf += 1
            generic = bool(f.get("targs"))
            for r in set(fn_refs(f["body"])) if not generic else ():
                if r not in lay:
                    continue
                bad = L == "low" and lay[r] in ("mid", "high") or L == "mid" and lay[r] == "high"
                if bad:
                    ctx.ob("layering", "%s -> %s" % (site, r), False, "%s in `%s` refers to %s in `%s`" % (f["path"], L, r, lay[r]), w)
            for l in f["body"]["locals"] if not generic else ():
                s = crate.types[l[0] if isinstance(l, list) else l["ty"]]["s"]
                if L == "low" and re.search(r"graviola::(mid|high)::", s) or L == "mid" and "graviola::high::" in s:
                    ctx.ob("layering", "%s type %s" % (site, s), False, "%s in `%s` uses the type %s" % (f["path"], L, s), w)
            if L == "low":
                continue
            bad = []
            if f.get("unsafe"):
                bad.append((f["line"], "is an unsafe function"))
            for c, t in call_sites(f):
                nc += 1
                if c and c.get("unsafe") and not re.match(r"core::fmt::", c.get("rpath") or c["path"]) and not c["path"].startswith("core::fmt::"):
                    if re.match(r"core::intrinsics::size_of_val|core::intrinsics::align_of_val", c["path"]):
                        continue
                    bad.append((t.get("line"), "calls unsafe %s" % c["path"]))
            for b in f["body"]["blocks"]:
                if isinstance(b["t"], dict) and b["t"].get("k") == "asm":
                    bad.append((b["t"].get("line"), "contains inline assembly"))
            bad += [(l, "dereferences a raw pointer") for l in raw_derefs(crate, f)]
            ctx.ob("unsafe-only-in-low", site, not bad, "; ".join(sorted({"%s at line %s" % (y, x) for x, y in bad})), w)
        for im in crate.impls:
            if im.get("trait") in ("core::marker::Send", "core::marker::Sync") and layer(crate, im["file"]) != "low":
                ctx.ob("unsafe-only-in-low", "%s for %s/%s" % (im["trait"], im.get("self"), arch), False, "unsafe impl %s for %s" % (im["trait"], im.get("self")), "%s:%s" % (im["file"], im["line"]))
        ctx.floor("functions inspected (%s)" % arch, nf, 100 if arch == "rustls" else 600)
        ctx.floor("call sites outside `low` inspected (%s)" % arch, nc, 250 if arch == "rustls" else 1500)
    parity(ctx)


def norm(s):
    return re.sub(r"graviola::low::(x86_64|aarch64)::", "graviola::low::", s)


def parity(ctx):
    x, a = ctx.x, ctx.a
    ex = {(p, k) for p, _, k in x.exports}
    ea = {(p, k) for p, _, k in a.exports}
    for p, k in sorted(ex ^ ea):
        ctx.ob("same-api", p, False, "%s is exported on one architecture only" % p)
    ctx.ob("same-api", "exported items", True)
    ctx.count("exported items compared", len(ex))

    def fset(c):
        r = {}
        for k, f in c.fns.items():
            if f.get("local") and f.get("body") and layer(c, f["file"]) in ("mid", "high"):
                args, ret = sig_of(c, f)
                calls = set()
                for cc, t in call_sites(f):
                    if cc:
                        p = norm(cc.get("rpath") or cc["path"])
                        calls.add(re.sub(r"graviola::low::(generic::)?(\w+::)*", "low::", p) if "graviola::low::" in p else p)
                r[norm(k)] = (f, [norm(s) for s in args] + [norm(ret)], calls)
        return r
    fx, fa = fset(x), fset(a)
    for k in sorted(set(fx) | set(fa)):
        f = (fx.get(k) or fa.get(k))[0]
        w = "%s:%s" % (f["file"], f["line"])
        if k not in fx or k not in fa:
            ctx.ob("platform-agnostic", k, False, "%s exists on one architecture only" % k, w)
            continue
        ctx.ob("same-api" if f.get("reachable") else "platform-agnostic", k + " signature", fx[k][1] == fa[k][1], "%s has different signatures: %s / %s" % (k, fx[k][1], fa[k][1]), w)
        d = fx[k][2] ^ fa[k][2]
        ctx.ob("platform-agnostic", k, not d, "%s calls differ between architectures: %s" % (k, ", ".join(sorted(d))), w)
    ctx.floor("mid/high functions compared across architectures", len(set(fx) & set(fa)), 400)


# ------------------------------------------------------------------------------------------------ C23
MUTABLE_TY = re.compile(r"core::cell::|UnsafeCell|core::sync::atomic|std::sync::(poison|mutex|rwlock|once|lazy|mpsc|barrier|condvar|nonpoison|reentrant)|std::sync::[a-z_:]*(Mutex|RwLock|Once|LazyLock|OnceLock|Condvar)|std::thread::local|alloc::rc::|alloc::rcs::rc::|\*mut |\*const ")
ALLOWED_CELL = {("rustls_graviola::ticketer::XChaCha20Ticketer", "maximum_ciphertext_len")}
AMBIENT = re.compile(r"^<?(std::(env|fs|net|process|thread|time|io|os|path|backtrace|sys|hash::random|collections::hash_map::RandomState|sync|alloc)\b|core::arch::(x86_64|aarch64)::(_rdtsc|_rdrand|_rdseed|__rdtscp)|core::core_arch::[a-z0-9_:]*(rdrand|rdseed|rdtsc)|libc::|rand|std::panic)")
RANDOM_OK = re.compile(r"generate|new_random|::encaps$|random::fill$|::sign(_asn1)?(::<.*)?$|::sign_pss_\w+$")


def call_graph(crate):
    byname, impls = {}, {}
    for k, f in crate.fns.items():
        byname.setdefault(f["path"], []).append(k)
    for im in crate.impls:
        if im.get("trait"):
            for nm, k in im["items"]:
                impls.setdefault(im["trait"] + "::" + nm, []).append(k)
    memo = {}

    def succ(k):
        if k not in memo:
            out = list(impls.get(k, []))
            for kk in [k] + byname.get(k, []):
                f = crate.fns.get(kk)
                if f:
                    out.append(f["path"])
                    if f.get("body"):
                        for r in fn_refs(f["body"]):
                            out.append(r)
                            out.extend(impls.get(r, []))
            memo[k] = out
        return memo[k]
    return succ


def path_to(succ, k, pred):
    """a call path from k to something satisfying pred, or None"""
    par = {k: None}
    st = [k]
    while st:
        y = st.pop(0)
        if pred(y) and y != k:
            p = []
            while y:
                p.append(y)
                y = par[y]
            return p[::-1]
        for z in succ(y):
            if z not in par:
                par[z] = y
                st.append(z)
    return None


def C23(ctx):
    ctx.rule("no-mutable-globals", "no static is mutable, thread-local or has interior mutability")
    ctx.rule("no-interior-mutability", "no type of the crates contains a cell, atomic, lock, reference-counted cell or raw pointer (the ticketer's size hint excepted, which only bounds the accepted length)")
    ctx.rule("no-ambient-effects", "nothing reachable from an exported function or trait implementation uses the environment, files, network, processes, threads, clocks, standard streams or hardware randomness instructions")
    ctx.rule("one-randomness-source", "the operating system's random source is called from exactly one function, the fill of the system RandomSource")
    ctx.rule("deterministic-operations", "only key generation, encapsulation, ECDSA/PSS signing and random::fill can reach the random source; every other exported function is a function of its arguments")
    for arch, crate in archs(ctx) + [("rustls", ctx.r)]:
        ns = 0
        for p, s in crate.statics.items():
            ns += 1
            ty = static_ty(crate, s)
            ctx.ob("no-mutable-globals", "%s/%s" % (p, arch), not s.get("mut") and not s.get("tls") and not MUTABLE_TY.search(ty), "static %s: %s%s%s" % (p, "mut " if s.get("mut") else "", "thread-local " if s.get("tls") else "", ty), "%s:%s" % (s.get("file"), s.get("line")))
        ctx.floor("statics (%s)" % arch, ns, 15)
        for k, f in crate.fns.items():
            if f.get("local") and f.get("body") and any("thread_local" in r or "LocalKey" in r for r in call_paths(f)):
                ctx.ob("no-mutable-globals", "%s/%s" % (f["path"], arch), False, "%s uses thread-local storage" % f["path"], "%s:%s" % (f["file"], f["line"]))
        nt = 0
        for p, a in sorted(crate.adts.items()):
            if not p.startswith(crate.name + "::"):
                continue
            for v in a["variants"]:
                for f in v["fields"]:
                    nt += 1
                    if (p, f["name"]) in ALLOWED_CELL:
                        continue
                    ctx.ob("no-interior-mutability", "%s.%s/%s" % (p, f["name"], arch), not MUTABLE_TY.search(f["ty"]), "%s.%s is %s" % (p, f["name"], f["ty"]), "%s:%s" % (a["file"], a["line"]))
        ctx.count("fields inspected", nt)
        live = called_closure(crate)
        n = 0
        drawers = []
        for k in sorted(live):
            f = crate.fns[k]
            if not f.get("local") or not f.get("body"):
                continue
            n += 1
            for r in sorted(set(fn_refs(f["body"]))):
                if AMBIENT.match(r):
                    ctx.ob("no-ambient-effects", "%s -> %s/%s" % (f["path"], r, arch), False, "%s uses %s" % (f["path"], r), "%s:%s" % (f["file"], f["line"]))
                elif re.match(r"<?getrandom::", r) and not re.match(r"<?getrandom::(error::)?Error", r):
                    drawers.append(f)
        names = sorted({f["path"] for f in drawers})
        ctx.ob("one-randomness-source", arch, len(names) == (0 if arch == "rustls" else 1), "the operating system's random source is drawn from in %s" % (", ".join(names) or "no function"), ", ".join("%s:%s" % (f["file"], f["line"]) for f in drawers))
        ctx.ob("no-ambient-effects", "reachable functions/%s" % arch, n > 0, "nothing reachable")
        ctx.count("reachable functions inspected", n)
        if arch == "rustls":
            continue
        succ = call_graph(crate)
        nd = nr = 0
        for k, f in sorted(crate.fns.items()):
            if not (f.get("local") and f.get("reachable") and f.get("body")) or f.get("kind") == "Closure":
                continue
            p = path_to(succ, k, lambda y: bool(re.match(r"<?getrandom::", y)))
            if RANDOM_OK.search(f["path"]):
                nr += p is not None
                continue
            nd += 1
            ctx.ob("deterministic-operations", "%s/%s" % (k, arch), p is None, "%s can draw randomness: %s" % (f["path"], " -> ".join(p or [])), "%s:%s" % (f["file"], f["line"]))
        ctx.floor("exported deterministic functions (%s)" % arch, nd, 120)
        ctx.floor("exported functions drawing randomness (%s)" % arch, nr, 12)


def static_ty(crate, s):
    t = s["ty"]
    return crate.types[t]["s"] if isinstance(t, int) else str(t)
