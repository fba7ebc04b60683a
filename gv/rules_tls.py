"""C25: TLS record protection in rustls-graviola."""
import re
from .core import guarded
from .engine import *
from .engine import DEFAULT_OPAQUE
from .q import *
from .rules_ec import av_root
from .rules_hash import boxed
from .rules_der import disc_is

AEAD = re.compile(r"graviola::high::(aes_gcm|chacha20poly1305|xchacha20poly1305)::\w+::\w+$|graviola::aead::\w+::\w+$|(AesGcm|ChaCha20Poly1305)::(encrypt|decrypt|new|\w*)$")


def tls_engine(ctx, crate, extra=None, K=32):
    E = ctx.engine(crate, opaque=lambda key, path: bool(DEFAULT_OPAQUE.match(path)) or bool(AEAD.search(path)) or bool(AEAD.search(key)) or bool(extra and (extra.search(key) or extra.search(path))), K=K)
    E.eager = False
    return E


class Ext:
    """variant and field names of the types the crate uses, its own and others'"""

    def __init__(self, crate):
        self.v = {}
        for t in crate.types:
            if isinstance(t, dict) and t.get("path") and t.get("variants"):
                self.v.setdefault(t["path"], t["variants"])

    def variant(self, t):
        """'Error::DecryptError' for an enum value"""
        if not (isinstance(t, T) and t.op == "agg"):
            return None
        n, i = str(t.a[0]), t.a[1]
        i = i.a[0] if isinstance(i, T) else i
        for p, vs in self.v.items():
            if p == n or p.endswith("::" + n):
                return "%s::%s" % (n.split("::")[-1], vs[i][0])
        return None

    def field(self, path_end, name):
        for p, vs in self.v.items():
            if p.split("<")[0].endswith(path_end):
                for j, f in enumerate(vs[0][1]):
                    if f[0] == name:
                        return j
        return None


def callname(t):
    return t.a[0] if isinstance(t, T) and t.op == "call" else ""


def called(t, rx):
    return isinstance(t, T) and t.op == "call" and (re.search(rx, t.a[0]) or re.search(rx, str(t.a[1])))


def sa(t):
    while isinstance(t, T) and t.op == "at":
        t = t.a[0]
    return t


def rebuild(t, f, memo=None):
    """bottom-up rewrite; f(term) gives a replacement or None"""
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        if t.op == "lin":
            c, d = t.a
            r = I(c)
            for x, k in d:
                r = add(r, mulc(rebuild(x, f, memo), k))
        else:
            def g(x):
                if isinstance(x, T):
                    return rebuild(x, f, memo)
                if isinstance(x, tuple):
                    return tuple(g(y) for y in x)
                return x
            na = tuple(g(x) for x in t.a)
            if na == t.a:
                r = t
            elif t.op == "lt":
                r = b_lt(*na)
            elif t.op == "eq":
                r = b_eq(*na)
            elif t.op == "prj":
                r = project(na[0], na[1])
            else:
                r = mk(t.op, *na)
    memo[t] = r
    return r


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st += x
        elif isinstance(x, T) and x not in seen:
            seen.add(x)
            yield x
            st += x.a


MAX = 16384
TAG = 16


def C25(ctx):
    ctx.rule("record-keys", "every record encrypter and decrypter is built from the whole of the key it is given, with the AEAD of its suite, and from the whole of the IV it is given; the declared key lengths and key-block shapes are those of the suite, and exported secrets carry the same key and IV")
    ctx.rule("record-encrypt", "encryption produces [explicit nonce] || whole plaintext [|| content type] encrypted in place || whole tag from a single AEAD call under the record's own nonce (IV with the sequence number) and associated data, with the outer type and version of the protocol version")
    ctx.rule("record-decrypt", "decryption returns a plaintext only after the AEAD call over the whole record body, with the record's own nonce, associated data and tag, has succeeded, truncated to exactly the decrypted bytes; anything else is an error")
    ctx.rule("record-length", "records shorter than the overhead are refused before any arithmetic, TLS 1.2 plaintexts over 2^14 bytes are refused, and the declared ciphertext length is the real one")
    crate = ctx.r
    ext = Ext(crate)
    n = 0
    seen = set()
    for im in crate.impls:
        tr = str(im.get("trait") or "")
        if not tr.endswith(("Tls13AeadAlgorithm", "Tls12AeadAlgorithm")):
            continue
        ver = 13 if tr.endswith("Tls13AeadAlgorithm") else 12
        name = str(im["self"]).split("::")[-1]
        gcm = "Gcm" in name
        items = dict(im["items"])
        n += 1
        seen.add((ver, gcm))
        guarded(ctx, "%s/1.%d" % (name, ver - 10), suite, crate, ext, name, ver, gcm, items)
    ctx.floor("TLS AEAD algorithm implementations", n, 4)
    ctx.ob("coverage-floor", "one implementation per version and AEAD", len(seen) == 4, "expected AES-GCM and ChaCha20-Poly1305 for TLS 1.2 and 1.3, found %s" % sorted(seen))


def key_bytes(t):
    """the AeadKey parameter whose whole bytes t is"""
    t = sa(t)
    if t.op == "deref" and called(t.a[0], r"AeadKey as (core::convert::)?AsRef<\[u8\]>>::as_ref$|AeadKey>?::as_ref$"):
        return sa(t.a[0].a[2][0])
    return None


def iv_value(E, o, v, ver, gcm, av, pos):
    """the IV given (argument pos, and pos+1 for an explicit part), whole"""
    v = sa(v)
    a = av[pos]
    if ver == 13:
        return v is a
    w = av_root(a)
    if not gcm:
        if called(v, r"Iv::copy$"):
            return sa(v.a[2][0]) is w
        return called(v, r"Iv::new$") and sa(v.a[2][0]) is w and o.st.facts.get(mk("len", w.a[0])) is I(12)
    if not called(v, r"Iv::new$") or pos + 1 >= len(av):
        return False
    b = sa(v.a[2][0])
    x = av_root(av[pos + 1])
    return joined(o, b, [(w, 4), (x, 8)])


def joined(o, b, parts):
    """b is the concatenation of whole values of known lengths"""
    at = 0
    for w, n in parts:
        p = sa(project(b, ("r", I(at), I(at + n))))
        if not (p is w and length_is(o, w, n)):
            return False
        at += n
    return True


def length_is(o, w, n):
    if w.op == "deref":
        ln = mk("len", w.a[0])
        return o.st.facts.get(ln) is I(n) or o.st.facts.get(mk("eq", ln, I(n))) is TRUE
    return True


def suite(ctx, crate, ext, name, ver, gcm, items):
    fields = {}
    for role in ("encrypter", "decrypter"):
        key = items.get(role)
        site = "%s TLS1.%d %s" % (name, ver - 10, role)
        if not ctx.ob("record-keys", site, key in crate.fns, "%s is missing" % role, ""):
            continue
        E = tls_engine(ctx, crate)
        outs, av = E.entry(key)
        ctx.done(E)
        where = ctx.locate(crate, key)
        ctx.ob("record-keys", site, outs, "no outcome", where)
        for o in outs:
            ctx.count("record key paths")
            v = boxed(E, o)
            if not ctx.ob("record-keys", site, v.op == "agg" and v.a[0] in crate.adts, "the %s built is not evident: %s" % (role, show(v, 3)[:160]), where):
                continue
            fs = v.a[2:]
            ae = [i for i, x in enumerate(fs) if called(x, r"%s::new$" % ("AesGcm" if gcm else "ChaCha20Poly1305"))]
            ok = len(ae) == 1 and key_bytes(fs[ae[0]].a[2][0]) is av[1]
            ctx.ob("record-keys", site, ok, "the AEAD is not built from the whole of the key given: %s" % show(v, 5)[:200], where)
            if role == "decrypter" and ver == 12 and gcm:
                w = av_root(av[2])
                iv = [i for i, x in enumerate(fs) if sa(x) is w and length_is(o, w, 4)]
            else:
                iv = [i for i, x in enumerate(fs) if i not in ae and iv_value(E, o, x, ver, gcm, av, 2)]
            ok = ctx.ob("record-keys", site, len(iv) == 1, "the whole IV given is not what the %s keeps: %s" % (role, show(v, 5)[:200]), where) and ok
            if ok:
                f = (v.a[0], ae[0], iv[0])
                ctx.ob("record-keys", site, fields.get(role, f) == f, "two different %s states" % role, where)
                fields[role] = f
    for role, want in (("encrypter", "MessageEncrypter"), ("decrypter", "MessageDecrypter")):
        if role not in fields:
            continue
        adt, fa, fi = fields[role]
        im = [i for i in crate.impls if i.get("adt") == adt and str(i.get("trait") or "").endswith("::" + want)]
        site = "%s as %s" % (adt.split("::")[-1], want)
        if not ctx.ob("record-" + role[:7], site, len(im) == 1, "no %s implementation for %s" % (want, adt), ""):
            continue
        its = dict(im[0]["items"])
        if role == "encrypter":
            guarded(ctx, site, encrypt, crate, ext, its, ver, gcm, fa, fi)
        else:
            guarded(ctx, site, decrypt, crate, ext, its, ver, gcm, fa, fi)
    lengths(ctx, crate, ext, name, ver, gcm, items)


def lengths(ctx, crate, ext, name, ver, gcm, items):
    for fn in ("key_len", "key_block_shape", "extract_keys"):
        key = items.get(fn)
        if key is None:
            continue
        E = tls_engine(ctx, crate)
        outs, av = E.entry(key)
        ctx.done(E)
        where = ctx.locate(crate, key)
        site = "%s TLS1.%d %s" % (name, ver - 10, fn)
        own = project(av_root(av[0]), ("f", 0)) if gcm else I(32)
        ctx.ob("record-keys", site, outs, "no outcome", where)
        for o in outs:
            v = E.view(o.st, o.ret)
            if fn == "key_len":
                ctx.ob("record-keys", site, v is own, "key length is %s" % show(v, 3), where)
            elif fn == "key_block_shape":
                want = {"enc_key_len": own, "fixed_iv_len": I(4 if gcm else 12), "explicit_nonce_len": I(8 if gcm else 0)}
                ok = v.op == "agg" and all(ext.field("KeyBlockShape", k) is not None and v.a[2 + ext.field("KeyBlockShape", k)] is x for k, x in want.items())
                ctx.ob("record-keys", site, ok, "key-block shape is %s" % show(v, 3), where)
            else:
                if is_err(o):
                    continue
                s = v.a[2] if v.op == "agg" and v.a[1] == 0 and len(v.a) == 3 else v
                nm = ext.variant(s) or "?"
                if gcm:
                    kl = o.st.facts.get(own)
                    exp = {16: "Aes128Gcm", 32: "Aes256Gcm"}.get(kl.a[0] if kl is not None and isint(kl) else None)
                else:
                    exp = "Chacha20Poly1305"
                ok = nm == "ConnectionTrafficSecrets::%s" % exp and sa(s.a[2]) is av[1] and iv_value(E, o, s.a[3], ver, gcm, av, 2)
                ctx.ob("record-keys", site, ok, "the exported secrets are not the key and IV given: %s" % show(s, 4)[:160], where)


def encrypt(ctx, crate, ext, its, ver, gcm, fa, fi):
    oh = TAG + (1 if ver == 13 else 8 if gcm else 0)
    key = its["encrypted_payload_len"]
    E = tls_engine(ctx, crate)
    outs, av = E.entry(key)
    ctx.done(E)
    for o in outs:
        ctx.ob("record-length", key, o.ret is add(av[1], I(oh)), "the declared ciphertext length is %s, not the plaintext length + %d" % (show(o.ret, 3), oh), ctx.locate(crate, key))
    key = its["encrypt"]
    E = tls_engine(ctx, crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    me = av_root(av[0])
    aead, iv, m, seq = project(me, ("f", fa)), project(me, ("f", fi)), av[1], av[2]
    typ, version, pay = (project(m, ("f", ext.field("OutboundPlainMessage", f))) for f in ("typ", "version", "payload"))
    ctx.ob("record-encrypt", key + " outcomes", outs and any(not is_err(o) for o in outs), "no successful outcome", where)

    def ob(ok, why, rule="record-encrypt"):
        return ctx.ob(rule, key, ok, why, where)
    for o in outs:
        ctx.count("record encryption paths")
        if is_err(o):
            ob(False, "encryption can fail")
            continue
        v = E.view(o.st, o.ret)
        if v.op == "agg" and len(v.a) == 3:
            v = v.a[2]
        if not ob(called(v, r"OutboundOpaqueMessage::new$"), "the record is not evident: %s" % show(v, 3)[:160]):
            continue
        t, ve, P = v.a[2]
        if ver == 13:
            ob(ext.variant(t) == "ContentType::ApplicationData" and ext.variant(ve) == "ProtocolVersion::TLSv1_2", "the outer type or version is not ApplicationData, TLS 1.2")
        else:
            ob(t is typ and ve is version, "the record's type or version is not the message's own")
        cs = [c for c in o.st.ev if called(c, r"(AesGcm|ChaCha20Poly1305)::encrypt\w*$")]
        if not ob(len(cs) == 1, "%d AEAD encryptions for one record" % len(cs)):
            continue
        c = cs[0]
        ps = pieces(E, o, sa(P), c)
        if not ob(ps is not None, "the record's contents are not evident: %s" % show(P, 5)[:200]):
            continue
        a = [sa(x) for x in c.a[2]]
        ob(a[0] is aead, "the record is not encrypted under the connection's own key")
        nc = a[1]
        ok = nc.op == "prj" and nc.a[1] == ("f", 0) and called(nc.a[0], r"Nonce::new$") and sa(nc.a[0].a[2][0]) is iv and nc.a[0].a[2][1] is seq
        ob(ok, "the nonce is not the connection's IV combined with the record's sequence number: %s" % show(nc, 5)[:160])
        plen = [z for z in subterms(a[2]) if called(z, r"OutboundChunks(::<.*>|<.*>)?::len$|::len$") and sa(z.a[2][0]) is pay]
        ln = plen[0] if plen else None
        want_ok = False
        if ln is not None:
            if ver == 13:
                want_ok = called(a[2], r"make_tls13_aad$") and a[2].a[2][0] is add(ln, I(oh))
            else:
                want_ok = called(a[2], r"make_tls12_aad$") and list(a[2].a[2]) == [seq, typ, version, ln]
        ob(want_ok, "the associated data is not that of this record: %s" % show(a[2], 5)[:160])
        exp = []
        if ver == 12 and gcm:
            exp.append(("s", project(nc, ("r", I(4), I(12)))))
        exp.append(("c", pay))
        if ver == 13:
            exp.append(("type", typ))
        exp.append(("enc", len(exp) and (8 if ver == 12 and gcm else 0)))
        exp.append(("s", mk("out", c, 4)))
        got = []
        for k, x in ps:
            if k == "s" and called(x, r"ContentType::to_array$|ContentType>?::to_array"):
                got.append(("type", sa(x.a[2][0])))
            elif k == "s" and called(x, r"u8 as .*From<.*ContentType>>::from$"):
                got.append(("type", sa(x.a[2][0])))
            else:
                got.append((k, x))
        ob(got == exp, "the record is not [explicit nonce] || encrypted whole plaintext [|| type] || tag: %s" % "; ".join("%s %s" % (k, show(x, 4)[:80] if isinstance(x, T) else x) for k, x in got))
        tg = sa(c.a[2][4])
        ob(tg.op == "rep" and (tg.a[1] is I(TAG) or tg.a[1] == TAG), "the tag is not %d bytes" % TAG, "record-length")


def pieces(E, o, t, enc):
    """what a PrefixedPayload has been given, in order, and where the AEAD call ran over it"""
    t = sa(t)
    if called(t, r"PrefixedPayload::with_capacity$"):
        return []
    if t.op != "out" or t.a[1] != 0 or t.a[0].op != "call":
        return None
    c = t.a[0]
    prev = pieces(E, o, c.a[2][0], enc)
    if prev is None:
        return None
    if called(c, r"PrefixedPayload::extend_from_slice$"):
        return prev + [("s", sa(c.a[2][1]))]
    if called(c, r"PrefixedPayload::extend_from_chunks$"):
        return prev + [("c", sa(c.a[2][1]))]
    if called(c, r"PrefixedPayload as .*AsMut<\[u8\]>>::as_mut$|PrefixedPayload as .*DerefMut>::deref_mut$"):
        w = written_by(E, o, c, enc, 3)
        if w is None:
            return prev
        if w and w[1] is mk("len", c):
            return prev + [("enc", w[0].a[0] if isint(w[0]) else w[0])]
        return None
    return None


def written_by(E, o, ptr, call, i):
    """None: nothing was written through ptr; (lo, hi): exactly output i of call was; False: something else was"""
    d = E.content(o.st, ("S", ptr))
    base = mk("deref", ptr)
    if d is base:
        return None
    out = mk("out", call, i)
    if sa(d) is out:
        return I(0), mk("len", ptr)
    if d.op == "upd" and sa(d.a[0]) is base and d.a[1][0] == "r" and sa(d.a[2]) is out:
        return d.a[1][1], d.a[1][2]
    return False


PAYPTR = r"BorrowedPayload(<.*>)? as .*(Deref>::deref|DerefMut>::deref_mut|AsRef<\[u8\]>>::as_ref|AsMut<\[u8\]>>::as_mut)$"


def decrypt(ctx, crate, ext, its, ver, gcm, fa, fi):
    h = 8 if ver == 12 and gcm else 0
    oh = TAG + h
    key = its["decrypt"]
    E = tls_engine(ctx, crate)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    me = av_root(av[0])
    aead, iv, m, seq = project(me, ("f", fa)), project(me, ("f", fi)), av[1], av[2]
    typ, version, pay = (project(m, ("f", ext.field("InboundOpaqueMessage", f))) for f in ("typ", "version", "payload"))
    LEN, PAY = mk("sym", "record length"), mk("sym", "record payload")

    def untouched(t):
        t = sa(t)
        return t is pay or t.op == "out" and t.a[1] == 0 and called(t.a[0], PAYPTR) and untouched(t.a[0].a[2][0])

    def f(t):
        if t.op in ("len", "deref") and called(t.a[0], PAYPTR) and untouched(t.a[0].a[2][0]):
            return LEN if t.op == "len" else PAY
        return None
    memo = {}

    def nz(t):
        return rebuild(t, f, memo)
    ctx.ob("record-decrypt", key + " outcomes", any(not is_err(o) for o in outs) and any(is_err(o) for o in outs), "no successful or no failing outcome", where)
    for o in outs:
        ctx.count("record decryption paths")

        def ob(ok, why, rule="record-decrypt"):
            return ctx.ob(rule, key, ok, why, where)
        facts = {nz(t): v for t, v in o.st.facts.items()}
        short = bound(facts, LEN, oh)
        cs = [c for c in o.st.ev if called(c, r"(AesGcm|ChaCha20Poly1305)::decrypt\w*$")]
        verdict = None
        for c in cs:
            verdict = True if disc_is(o, c, 0) else False if disc_is(o, c, 1) else verdict
        big = bound(facts, LEN, MAX + oh + 1)
        v = E.view(o.st, o.ret)
        if is_err(o):
            e = ext.variant(v.a[2]) if len(v.a) > 2 else None
            ok = e == "Error::DecryptError" and (short is True or verdict is False) or e == "Error::PeerSentOversizedRecord" and ver == 12 and big is False
            ob(ok, "an error that is neither a short record, a failed authentication nor an oversized plaintext: %s" % show(v, 3)[:120])
            continue
        ob(short is False, "a record shorter than the %d-byte overhead is not refused" % oh, "record-length")
        if ver == 12:
            ob(big is True, "a plaintext over 2^14 bytes is not refused", "record-length")
        if not ob(len(cs) == 1 and verdict is True, "a plaintext is returned without the AEAD decryption having succeeded"):
            continue
        c = cs[0]
        a = [nz(sa(x)) for x in c.a[2]]
        body = add(LEN, I(-TAG))
        ob(a[0] is aead, "the record is not decrypted under the connection's own key")
        nc = sa(a[1])
        if ver == 12 and gcm:
            ok = sa(project(nc, ("r", I(0), I(4)))) is iv and sa(project(nc, ("r", I(4), I(12)))) is project(PAY, ("r", I(0), I(8)))
            ob(ok, "the nonce is not the fixed IV followed by the record's explicit nonce: %s" % show(nc, 5)[:160])
            ob(True, "")
        else:
            ok = nc.op == "prj" and nc.a[1] == ("f", 0) and called(nc.a[0], r"Nonce::new$") and sa(nc.a[0].a[2][0]) is iv and nc.a[0].a[2][1] is seq
            ob(ok, "the nonce is not the connection's IV combined with the record's sequence number: %s" % show(nc, 5)[:160])
        ad = sa(a[2])
        if ver == 13:
            ok = called(ad, r"make_tls13_aad$") and ad.a[2][0] is LEN
        else:
            ok = called(ad, r"make_tls12_aad$") and list(ad.a[2]) == [seq, typ, version, add(LEN, I(-oh))]
        ob(ok, "the associated data is not that of this record: %s" % show(ad, 5)[:160])
        ob(sa(a[3]) is project(PAY, ("r", I(h), body)), "the AEAD call does not cover the whole record body: %s" % show(a[3], 4)[:160])
        ob(sa(a[4]) is project(PAY, ("r", body, LEN)), "the tag is not the record's last %d bytes: %s" % (TAG, show(a[4], 4)[:160]))
        # what is returned
        if v.op == "agg" and len(v.a) == 3 and v.a[1] == 0:
            v = v.a[2]
        if not ob(v.op == "call" and (ver == 13) == bool(called(v, r"into_tls13_unpadded_message$")) and (ver == 13 or called(v, r"into_plain_message(_range)?$")), "the message returned is not evident: %s" % show(v, 3)[:120]):
            continue
        msg = sa(v.a[2][0])
        pi = ext.field("InboundOpaqueMessage", "payload")
        ok = project(msg, ("f", ext.field("InboundOpaqueMessage", "typ"))) is typ and project(msg, ("f", ext.field("InboundOpaqueMessage", "version"))) is version
        ob(ok, "the message's type or version is changed")
        cut, hit, good = payload_chain(E, o, project(msg, ("f", pi)), pay, c, nz)
        ob(good and len(hit) == 1 and hit[0] == (I(h), body), "the decrypted bytes are not what the message holds (in place, over the record body)")
        if called(v, r"into_plain_message_range$"):
            r = v.a[2][1]
            ok = r.op == "agg" and nz(r.a[2]) is I(h) and nz(r.a[3]) is body and (cut is None or False)
        else:
            ok = h == 0 and cut is body
        ob(ok, "the plaintext returned is not exactly the decrypted bytes")


def payload_chain(E, o, t, pay, call, nz):
    """(length it was truncated to, ranges output 3 of call was written over, whether nothing else happened)"""
    t = sa(t)
    if t is pay:
        return None, [], True
    if t.op != "out" or t.a[1] != 0 or t.a[0].op != "call":
        return None, [], False
    c = t.a[0]
    cut, hit, good = payload_chain(E, o, c.a[2][0], pay, call, nz)
    if called(c, r"BorrowedPayload(::<.*>|<.*>)?::truncate$|::truncate$"):
        return nz(c.a[2][1]), hit, good and cut is None
    if called(c, PAYPTR):
        w = written_by(E, o, c, call, 3)
        if w is None:
            return cut, hit, good
        if w is False:
            return cut, hit, False
        return cut, hit + [(nz(w[0]), nz(w[1]))], good and cut is None
    return cut, hit, False


def bound(facts, x, n):
    """True: x < n is known; False: x >= n is known; None: neither"""
    for t, v in facts.items():
        if t.op == "lt" and isint(v):
            a, b = t.a
            if a is x and isint(b):
                if v is I(1) and b.a[0] <= n:
                    return True
                if v is I(0) and b.a[0] >= n:
                    return False
            if b is x and isint(a):
                if v is I(1) and a.a[0] + 1 >= n:
                    return False
                if v is I(0) and a.a[0] + 1 <= n:
                    return True
    return None


XCH = re.compile(r"XChaCha20Poly1305::\w+$|graviola::random::fill$")


def os_fill(E, o, t, n):
    """the fill call when t is all n bytes of a successful OS random fill, or None"""
    t = sa(t)
    if t.op == "out" and t.a[1] == 0 and called(t.a[0], r"graviola::random::fill$") and disc_is(o, t.a[0], 0):
        b = sa(t.a[0].a[2][0])
        if b.op == "rep" and (b.a[1] is I(n) or b.a[1] == n):
            return t.a[0]
    return None


def C28(ctx):
    ctx.rule("ticket-key", "the ticketer rotates generators that make a new 32-byte key and a new 16-byte key name, each all of one successful OS random fill; a failed fill gives no ticketer")
    ctx.rule("ticket-encrypt", "a ticket is key name || 24-byte nonce || whole plaintext encrypted in place || whole tag, under the ticketer's key, a nonce that is all of a random fill made for this ticket, and the key name as associated data; its length is recorded for the decrypter")
    ctx.rule("ticket-decrypt", "a plaintext is returned only when the XChaCha20-Poly1305 decryption of the whole of the ticket, with its key name authenticated and its own nonce and tag, has succeeded, and it is all of that plaintext; a ticket is refused only for its length, its key name or a failed authentication")
    crate = ctx.r
    impls = {i["adt"]: dict(i["items"]) for i in crate.impls if str(i.get("trait") or "").endswith("::ProducesTickets")}
    ctx.floor("ticket producers", len(impls), 1)
    entry = [k for k in crate.fns if re.search(r"::Ticketer::new$", k) and crate.fns[k].get("vis") == "Public"]
    ctx.floor("ticketer constructors", len(entry), 1)
    done = set()
    for k in entry:
        guarded(ctx, k, ticketer, crate, k, impls, done)
    ctx.ob("coverage-floor", "every ticket producer is reached from the constructor", done == set(impls), "not reached: %s" % sorted(set(impls) - done))


def ticketer(ctx, crate, key, impls, done):
    E = tls_engine(ctx, crate, XCH)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    gens = set()
    for o in outs:
        if is_err(o):
            continue
        rot = [c for c in o.st.ev if called(c, r"TicketRotator::new$")]
        ok = len(rot) == 1 and disc_is(o, rot[0], 0)
        ctx.ob("ticket-key", key, ok, "the ticketer is not a rotator of ticket generators", where)
        if ok:
            for z in rot[0].a[2]:
                z = sa(z)
                g = z.a[0] if z.op in ("fn", "fnptr", "closure") else None
                m = re.findall(r"rustls_graviola::[\w:{}#<>]+", str(g) if g else show(z, 4))
                gens |= {x for x in m if x in crate.fns}
            life = [z for z in rot[0].a[2] if isint(z)]
            ctx.ob("ticket-key", key + " lifetime", len(life) == 1 and 0 < life[0].a[0] <= 6 * 3600, "ticket keys are not rotated every 6 hours or sooner: %s" % [show(z, 2) for z in rot[0].a[2]], where)
    if not gens:
        # a function item passed by value carries no data: take it from the call's type arguments
        for f in [crate.fns[key]]:
            for s in q_targs(f):
                gens |= {x for x in crate.fns if x in s}
    ctx.ob("ticket-key", key + " generator", gens, "the function generating ticket keys is not evident", where)
    for g in gens:
        generator(ctx, crate, g, impls, done)


def q_targs(f):
    for s in call_sites(f):
        yield str(s)


def generator(ctx, crate, key, impls, done):
    E = tls_engine(ctx, crate, XCH)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    ctx.ob("ticket-key", key, any(not is_err(o) for o in outs), "no successful outcome", where)
    for o in outs:
        ctx.count("ticket generator paths")
        fills = [c for c in o.st.ev if called(c, r"graviola::random::fill$")]
        if is_err(o):
            ctx.ob("ticket-key", key + " failure", any(disc_is(o, c, 1) for c in fills), "a failure that is not a failed random fill", where)
            continue
        v = E.view(o.st, o.ret)
        if v.op == "agg" and v.a[1] == 0 and len(v.a) == 3 and v.a[0].endswith("Result"):
            v = v.a[2]
        if v.op == "upd" and v.a[1] == ("f", "ptr"):
            v = v.a[2]
        if not ctx.ob("ticket-key", key + " state", v.op == "agg" and v.a[0] in impls, "the ticketer built is not evident: %s" % show(v, 3)[:160], where):
            continue
        fs = v.a[2:]
        ks = [i for i, x in enumerate(fs) if called(x, r"XChaCha20Poly1305::new$")]
        ok = len(ks) == 1
        kc = os_fill(E, o, fs[ks[0]].a[2][0], 32) if ok else None
        ctx.ob("ticket-key", key + " key", kc is not None, "the ticket key is not all of a successful 32-byte random fill", where)
        ns = [(i, os_fill(E, o, x, 16)) for i, x in enumerate(fs) if i not in ks and os_fill(E, o, x, 16)]
        ctx.ob("ticket-key", key + " name", len(ns) == 1 and ns[0][1] is not kc, "the key name is not all of a separate successful 16-byte random fill", where)
        at = [i for i, x in enumerate(fs) if called(x, r"Atomic(Usize)?(::<.*>|<.*>)?::new$|usize>::new$")]
        if kc is None or len(ns) != 1:
            continue
        adt = v.a[0]
        done.add(adt)
        guarded(ctx, adt + " encrypt", ticket_encrypt, crate, impls[adt]["encrypt"], ks[0], ns[0][0], at)
        guarded(ctx, adt + " decrypt", ticket_decrypt, crate, impls[adt]["decrypt"], ks[0], ns[0][0], at)


def vec_pieces(E, o, t, enc, i, name=None):
    t = sa(t)
    if called(t, r"vec::Vec(::<.*>|<.*>)?::(with_capacity|new)$"):
        return []
    if t.op != "out" or t.a[1] != 0 or t.a[0].op != "call":
        return None
    c = t.a[0]
    prev = vec_pieces(E, o, c.a[2][0], enc, i, name)
    if prev is None:
        return None
    if called(c, r"Extend<.*>>::extend(::<.*>)?$|Vec(::<.*>|<.*>)?::extend_from_slice$"):
        return prev + [("s", sa(c.a[2][1]))]
    if called(c, r"IndexMut<.*>>::index_mut$|Vec.*(DerefMut>::deref_mut|as_mut_slice|AsMut<.*>>::as_mut)$"):
        w = written_by(E, o, c, enc, i)
        if w is None:
            return prev
        lo = I(0)
        if len(c.a[2]) > 1:
            r = c.a[2][1]
            if not (r.op == "agg" and r.a[0].endswith("RangeFrom")):
                return None
            lo = r.a[2]
            if lo.op == "len":
                # the length the vector had after its key name and nonce
                q = vec_pieces(E, o, lo.a[0], enc, i, name)
                if q is None or q != prev[:2] or not all(os_fill(E, o, x, n) or name is x for (k, x), n in zip(q, (16, 24))):
                    return None
                lo = I(40)
        if w and w[1] is mk("len", c):
            return prev + [("enc", add(lo, w[0]))]
    return None


def ticket_encrypt(ctx, crate, key, fk, fn, fat):
    E = tls_engine(ctx, crate, XCH)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    me, msg = av_root(av[0]), av_root(av[1])
    k, name = project(me, ("f", fk)), project(me, ("f", fn))

    def ob(ok, why):
        return ctx.ob("ticket-encrypt", key, ok, why, where)
    some = 0
    for o in outs:
        ctx.count("ticket encryption paths")
        v = E.view(o.st, o.ret)
        if v.op == "agg" and v.a[1] == 0:
            ob(any(disc_is(o, c, 1) for c in o.st.ev if called(c, r"graviola::random::fill$")), "no ticket, although no random fill failed")
            continue
        some += 1
        if not ob(v.op == "agg" and v.a[1] == 1, "the ticket is not evident"):
            continue
        res = v.a[2]
        cs = [c for c in o.st.ev if called(c, r"XChaCha20Poly1305::encrypt$")]
        if not ob(len(cs) == 1, "%d encryptions for one ticket" % len(cs)):
            continue
        c = cs[0]
        a = [sa(x) for x in c.a[2]]
        ob(a[0] is k, "not encrypted under the ticketer's key")
        ob(os_fill(E, o, a[1], 24) is not None, "the nonce is not all of a successful random fill made for this ticket: %s" % show(a[1], 4)[:120])
        ob(a[2] is name, "the key name is not the associated data")
        ps = vec_pieces(E, o, res, c, 3, name)
        ob(ps == [("s", name), ("s", a[1]), ("s", msg), ("enc", I(40)), ("s", mk("out", c, 4))],
           "the ticket is not key name || nonce || encrypted plaintext || tag: %s" % "; ".join("%s %s" % (x, show(y, 3)[:60]) for x, y in ps or []))
        tg = a[4]
        ob(tg.op == "rep" and (tg.a[1] is I(16) or tg.a[1] == 16), "the tag is not 16 bytes")
        for i in fat:
            rec = [e for e in o.st.ev if called(e, r"::fetch_max$") and sa(e.a[2][0]) is project(me, ("f", i)) and e.a[2][1] in (mk("len", res), add(mk("len", msg.a[0]), I(56)))]
            ob(len(rec) >= 1, "the length of the ticket is not recorded for the decrypter")
    ob(some, "no ticket is ever produced")


def ticket_decrypt(ctx, crate, key, fk, fn, fat):
    E = tls_engine(ctx, crate, XCH, K=64)
    outs, av = E.entry(key)
    ctx.done(E)
    where = ctx.locate(crate, key)
    me, tk = av_root(av[0]), av_root(av[1])
    k, name = project(me, ("f", fk)), project(me, ("f", fn))
    LEN = mk("len", tk.a[0])
    prefix = project(tk, ("r", I(0), I(16)))

    def ob(ok, why):
        return ctx.ob("ticket-decrypt", key, ok, why, where)
    some = 0
    for o in outs:
        ctx.count("ticket decryption paths")
        v = E.view(o.st, o.ret)

        def f(t):
            if t.op == "sat" and t.a[0] == "Sub" and isint(t.a[2]) and o.st.facts.get(mk("eq", t, I(0))) is FALSE:
                return sub(t.a[1], t.a[2])
            return None
        memo = {}
        facts = {}
        for t, w in o.st.facts.items():
            if t.op == "eq" and t.a[0].op == "sat" and t.a[1] is I(0) and isint(t.a[0].a[2]):
                # x -sat c == 0  <=>  x < c+1
                facts[b_lt(t.a[0].a[1], add(t.a[0].a[2], I(1)))] = w
            else:
                facts[rebuild(t, f, memo)] = w
        cs = [c for c in o.st.ev if called(c, r"XChaCha20Poly1305::decrypt$")]
        same = None
        for t, w in facts.items():
            if t.op in ("seqeq", "eq") and {sa(t.a[0]), sa(t.a[1])} == {prefix, name}:
                same = w is TRUE
        if v.op == "agg" and v.a[1] == 0:
            toolong = any(t.op == "lt" and w is TRUE and t.a[1] is LEN and called(t.a[0], r"::load$") and any(sa(t.a[0].a[2][0]) is project(me, ("f", i)) for i in fat) for t, w in facts.items())
            ok = toolong or bound(facts, LEN, 57) is True or same is False or any(disc_is(o, c, 1) for c in cs)
            ob(ok, "a ticket is refused although its length and key name are right and it authenticates")
            continue
        some += 1
        ok = len(cs) == 1 and disc_is(o, cs[0], 0)
        if not ob(ok, "a plaintext is returned without the decryption having succeeded"):
            continue
        c = cs[0]
        a = [rebuild(sa(x), f, memo) for x in c.a[2]]
        end = add(LEN, I(-16))
        ob(bound(facts, LEN, 56) is False, "a ticket shorter than its overhead is not refused")
        ob(sa(a[0]) is k, "not decrypted under the ticketer's key")
        ob(sa(a[1]) is project(tk, ("r", I(16), I(40))), "the nonce is not the ticket's own: %s" % show(a[1], 3)[:100])
        ob(sa(a[2]) is prefix or sa(a[2]) is name and same is True, "the ticket's key name is neither compared nor authenticated")
        ob(sa(a[3]) is project(tk, ("r", I(40), end)), "the decryption does not cover the whole body: %s" % show(a[3], 4)[:120])
        ob(sa(a[4]) is project(tk, ("r", end, LEN)), "the tag is not the ticket's last 16 bytes: %s" % show(a[4], 4)[:120])
        p = v.a[2] if v.op == "agg" else v
        if p.op == "upd" and p.a[1] == ("f", "vec"):
            p = p.a[2]
        ob(sa(p) is mk("out", c, 3), "what is returned is not all of the decrypted plaintext: %s" % show(p, 4)[:120])
    ob(some, "no ticket is ever accepted")
