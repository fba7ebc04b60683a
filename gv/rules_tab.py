"""Constant tables equal what their mathematical definitions give (C24)."""
import math
import re
import struct
from .q import *
from .rules_ec import archs, PN


# ---------------------------------------------------------------- definitions
def primes(n):
    r, k = [], 2
    while len(r) < n:
        if all(k % p for p in r):
            r.append(k)
        k += 1
    return r


def iroot3(n):
    x = 1 << -(-n.bit_length() // 3)
    while True:
        y = (2 * x + n // (x * x)) // 3
        if y >= x:
            return x
        x = y


def words(xs, n=8):
    return b"".join(x.to_bytes(n, "little") for x in xs)


def i16(xs):
    return b"".join(struct.pack("<h", ((x + 32768) & 65535) - 32768) for x in xs)


def sha_k(n, bits):
    """the first bits of the fractional parts of the cube roots of the first n primes"""
    return [iroot3(p << (3 * bits)) & ((1 << bits) - 1) for p in primes(n)]


def keccak_rc():
    r, out = 1, []
    bit = []
    for _ in range(7 * 24):
        bit.append(r & 1)
        r <<= 1
        if r & 0x100:
            r ^= 0x171
    for i in range(24):
        out.append(sum(bit[7 * i + j] << ((1 << j) - 1) for j in range(7)))
    return out


def rol_shuffle(bits):
    """vpshufb control rotating each 64-bit lane left by whole bytes, for a 256-bit register"""
    return bytes(8 * q + (i - bits // 8) % 8 for q in range(4) for i in range(8))


# short Weierstrass curves with a = -3
GEN = {
    "p256": (0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296, 0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5),
    "p384": (0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
             0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f),
}


def w_add(p, P, Q):
    (x1, y1), (x2, y2) = P, Q
    m = (3 * (x1 * x1 - 1) * pow(2 * y1, -1, p) if P == Q else (y2 - y1) * pow(x2 - x1, -1, p)) % p
    x = (m * m - x1 - x2) % p
    return x, (m * (x1 - x) - y1) % p


def p256_w7():
    """row i, entry j: (j + 1) * 2^(7 i) * G, affine, in the Montgomery domain"""
    p, base, out = PN["p256"][0], GEN["p256"], []
    for i in range(37):
        e = base
        for j in range(64):
            out.append(e)
            e = w_add(p, e, base)
        base = w_add(p, out[-1], out[-1])
    return words([v * 2 ** 256 % p for e in out for v in e], 32)


def p384_w5(data):
    """which of the 16 Jacobian entries are not (i + 1) * G in the Montgomery domain"""
    p, R = PN["p384"][0], 2 ** 384
    G, P, bad = GEN["p384"], GEN["p384"], []
    for i in range(16):
        x, y, z = (int.from_bytes(data[144 * i + 48 * k:144 * i + 48 * k + 48], "little") for k in range(3))
        ok = max(x, y, z) < p and z
        if ok:
            x, y, z = (v * pow(R, -1, p) % p for v in (x, y, z))
            ok = (x - P[0] * z * z) % p == 0 and (y - P[1] * z * z * z) % p == 0
        if not ok:
            bad.append(i)
        P = w_add(p, P, G)
    return bad


Q25519 = 2 ** 255 - 19
D25519 = -121665 * pow(121666, -1, Q25519) % Q25519


def ed_add(P, Q):
    q = Q25519
    x1, y1 = P
    x2, y2 = Q
    k = D25519 * x1 * x2 * y1 * y2 % q
    return (x1 * y2 + x2 * y1) * pow(1 + k, -1, q) % q, (y1 * y2 + x1 * x2) * pow(1 - k, -1, q) % q


def ed_base():
    q = Q25519
    y = 4 * pow(5, -1, q) % q
    x2 = (y * y - 1) * pow(D25519 * y * y + 1, -1, q) % q
    x = pow(x2, (q + 3) // 8, q)
    if (x * x - x2) % q:
        x = x * pow(2, (q - 1) // 4, q) % q
    return (q - x if x & 1 else x), y


def ed_mul(k, P):
    r = (0, 1)
    while k:
        if k & 1:
            r = ed_add(r, P)
        P = ed_add(P, P)
        k >>= 1
    return r


def ed_niels(P):
    x, y = P
    return words([(y - x) % Q25519, (x + y) % Q25519, 2 * D25519 * x * y % Q25519], 32)


def ed_xyt(P):
    x, y = P
    return words([x, y, x * y % Q25519], 32)


def ed_table(first):
    """63 rows of 8: (k + 1) * 16^i * first * B"""
    base, out = ed_mul(first, ed_base()), []
    for i in range(63):
        e = base
        for k in range(8):
            out.append(ed_niels(e))
            e = ed_add(e, base)
        for _ in range(4):
            base = ed_add(base, base)
    return b"".join(out)


QM = 3329


def br7(k):
    return int(format(k, "07b")[::-1], 2)


def cent(x):
    x %= QM
    return x - QM if x > QM // 2 else x


def zeta(e, mont=False):
    return cent(pow(17, e % 256, QM) * (2 ** 16 if mont else 1))


def twist(z):
    """round(z * 2^15 / q), for Barrett multiplication"""
    return (2 * z * 32768 + QM) // (2 * QM)


def qinv(z):
    return z * pow(QM, -1, 65536)


def mlkem_x86():
    out = [0x0f0e - 0x202 * i for i in range(8)] * 2
    out += [v for i in range(7, -1, -1) for v in (i, 0)]

    def pair(ks, rep):
        zs = [zeta(br7(k), True) for k in ks for _ in range(rep)]
        return [qinv(z) for z in zs] + zs
    out += pair([1], 4) + [0] * 8
    for h in (0, 1):
        out += pair([2 + h], 16)
        for l in (2, 3, 4):
            n = 1 << l
            out += pair(range(n + h * n // 2, n + (h + 1) * n // 2), 16 // (n // 2))
        out += pair(range(32 + 16 * h, 48 + 16 * h), 1)
        for odd in (0, 1):
            out += pair(range(64 + 32 * h + odd, 96 + 32 * h, 2), 1)
    mc = [zeta(br7(k), True) for h in (0, 1) for odd in (0, 1) for k in range(64 + 32 * h + odd, 96 + 32 * h, 2)]
    return i16(out + mc + [qinv(z) for z in mc])


def mlkem_a64():
    def zt(e):
        z = zeta(e)
        return [z, twist(z)]

    def row(ks, s):
        r = [v for k in ks for v in zt(s * br7(k))]
        return r + [0] * (-len(r) % 8)

    def blocks(s, order):
        r = []
        for b in range(8):
            for ks in order(b):
                zs = [zeta(s * br7(k)) for k in ks]
                r += [z for z in zs for _ in (0, 1)] + [twist(z) for z in zs for _ in (0, 1)]
        return r

    def order(b):
        return [range(32 + 4 * b, 36 + 4 * b), range(64 + 8 * b, 72 + 8 * b, 2), range(65 + 8 * b, 72 + 8 * b, 2)]

    top = row(range(1, 8), 1)
    mid = lambda s: [v for b in range(8) for v in row([8 + b, 16 + 2 * b, 17 + 2 * b], s)]
    mc = [v for k in range(64, 128) for v in (zeta(br7(k)), -zeta(br7(k)))]
    return [("forward NTT zetas, layers 1-5", i16(top + mid(1))), ("forward NTT zetas, layers 6-7", i16(blocks(1, order))),
            ("inverse NTT zetas, layers 5-1", i16(mid(-1) + row(range(1, 8), -1))), ("inverse NTT zetas, layers 7-6", i16(blocks(-1, order))),
            ("base multiplication zetas", i16(mc)), ("twisted base multiplication zetas", i16([twist(z) for z in mc]))]


def rej_table():
    """entry m moves the 16-bit lanes selected by mask m to the front"""
    out = bytearray()
    for m in range(256):
        e = [v for b in range(8) if m >> b & 1 for v in (2 * b, 2 * b + 1)]
        out += bytes(e + [255] * (16 - len(e)))
    return bytes(out)


def small_primes():
    p, ps = 1, primes(400)[1:]
    for q in ps:
        if p * q >= 2 ** 1024:
            break
        p *= q
    return p.to_bytes(128, "big")


def digest_info(oid_last, n):
    return bytes.fromhex("3031300d060960864801650304020%d05000420" % oid_last).replace(b"\x30\x31", bytes([0x30, 17 + n]), 1)[:-1] + bytes([n])


def definitions():
    out = [
        ("SHA-256 round constants (cube roots of the first 64 primes)", words(sha_k(64, 32), 4)),
        ("SHA-512 round constants (cube roots of the first 80 primes)", words(sha_k(80, 64))),
        ("Keccak round constants (LFSR x^8+x^6+x^5+x^4+1)", words(keccak_rc())),
        ("byte shuffle rotating 64-bit lanes by 8", rol_shuffle(8)), ("byte shuffle rotating 64-bit lanes by 56", rol_shuffle(56)),
        ("byte reversal of 16 bytes", bytes(range(15, -1, -1))), ("byte reversal of 64-bit words", bytes(i ^ 7 for i in range(16))),
        ("byte reversal of 64-bit words, twice", bytes(i ^ 7 for i in range(16)) * 2),
        ("byte reversal of each 128-bit lane", bytes(i ^ 15 for i in range(64))), ("byte reversal of 64-bit words, 512-bit", bytes(i ^ 7 for i in range(64))),
        ("ChaCha constant", b"expand 32-byte k"),
        ("AES round constants (powers of x)", words([1, 2, 4, 8, 16, 32, 64, 128, 0x1b, 0x36], 4)),
        ("P-256 base point table, 37 windows of 7 bits", p256_w7()),
        ("ML-KEM constants for AVX2 (shuffles, zetas in Montgomery form and their products with q^-1)", mlkem_x86()),
        ("ML-KEM rejection sampling compaction table", rej_table()),
        ("product of the odd primes that fits 1024 bits", small_primes()),
        ("edwards25519 group order", words([2 ** 252 + 27742317777372353535851937790883648493], 32)),
    ] + [("ML-KEM " + n, b) for n, b in mlkem_a64()]
    for c in ("p256", "p384"):
        p, b, bits, n = PN[c]
        k = bits // 8
        out += [("%s a, Montgomery form" % c, words([(p - 3) * 2 ** bits % p], k)), ("%s b, Montgomery form" % c, words([b * 2 ** bits % p], k)),
                ("%s one, Montgomery form" % c, words([2 ** bits % p], k)), ("%s group order" % c, words([n], k)),
                ("%s 2^%d mod n" % (c, 2 * bits), words([4 ** bits % n], k)), ("%s p" % c, words([p], k))]
    B = ed_base()
    xb, eb = ed_table(16), ed_table(1)
    z = [ed_xyt(ed_mul(k, B)) for k in (2 ** 254, 2 ** 254 + 8, 0, 2 ** 251)]
    out += [("edwards25519 table of (k+1) 16^(i+1) B", xb), ("edwards25519 table of (k+1) 16^i B", eb), ("edwards25519 (x25519 base) starting points and table", z[0] + z[1] + xb),
            ("edwards25519 starting points and table", z[2] + z[3] + eb), ("edwards25519 multiples 1..8 of B", eb[:768])]
    out += [("edwards25519 point (x, y, xy) of %s B" % n, b) for n, b in zip(("2^254", "2^254 + 8", "0", "2^251"), z) if n != "0"]
    out += [("PKCS#1 DigestInfo prefix of SHA-%d" % s, digest_info(l, s // 8)) for s, l in ((256, 1), (384, 2), (512, 3))]
    return out


# ---------------------------------------------------------------- what the source has
def data_of(o):
    """all bytes of an evaluated static or constant, following one reference"""
    h, n = o.get("bytes"), o.get("size", o.get("len"))
    for _, r in o.get("rel", ()):
        m = re.match(r"mem (\d+) ([0-9a-f]*) ", r)
        if m:
            h, n = m.group(2), int(m.group(1))
    if h is None or len(h) != 2 * (n or 0):
        return None
    return bytes.fromhex(h)


def alike(a, b, unit):
    n = len(a) // unit
    return sum(a[i * unit:i * unit + unit] == b[i * unit:i * unit + unit] for i in range(n)) / n


def C24(ctx):
    ctx.rule("table", "each constant or static that is, or differs in less than half of its data from, a table with a mathematical definition, equals what the analyser computes from that definition")
    defs = definitions()
    ctx.count("definitions computed", len(defs) + 1)
    sizes = {}
    for n, b in defs:
        sizes.setdefault(len(b), []).append((n, b))
    for arch, crate in archs(ctx):
        found = set()
        for kind in ("statics", "consts"):
            for path, o in sorted(getattr(crate, kind).items()):
                d = data_of(o)
                if d is None or len(d) < 16:
                    continue
                where = "%s:%s" % (o.get("file", ""), o.get("line", "")) if o.get("file") else path
                best = max(((alike(d, b, 1 if len(b) < 128 else 4 if len(b) % 4 == 0 else 1), n, b) for n, b in sizes.get(len(d), ())), default=None, key=lambda x: x[0])
                if len(d) == 2304:
                    bad = p384_w5(d)
                    if len(bad) < 8:
                        found.add("P-384 table")
                        ctx.ob("table", "%s %s" % (arch, path), not bad, "entr%s %s of the table of multiples of the P-384 base point %s wrong" % ("y" if len(bad) == 1 else "ies", ", ".join(map(str, bad)), "is" if len(bad) == 1 else "are"), where)
                    continue
                if not best or best[0] < 0.5:
                    continue
                _, n, b = best
                found.add(n)
                if b != d:
                    i = next(i for i in range(len(b)) if b[i] != d[i])
                    ctx.ob("table", "%s %s" % (arch, path), False, "%s is not the %s: byte %d is %02x, the definition gives %02x (%d bytes differ)" % (
                        path.replace("graviola::", ""), n, i, d[i], b[i], sum(x != y for x, y in zip(b, d))), where)
                else:
                    ctx.ob("table", "%s %s" % (arch, path), True, n, where)
        ctx.count("tables recognised (%s)" % arch, len(found))
        ctx.floor("tables recognised (%s)" % arch, len(found), 12)
