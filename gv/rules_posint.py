"""PosInt predicates: the comparisons the RSA rules rely on look at every word in use."""
import re
from .core import guarded
from .engine import *
from .q import *
from .rules_ec import archs

KERNELS = re.compile(r"low::.*bignum_\w+$|low::ct::|::ct_equal$")


def kernel(t):
    m = t.op == "call" and re.search(r"bignum_(\w+)$", t.a[0])
    return m.group(1) if m else None


def whole_words(E, t, arg):
    """t is exactly the words in use of the PosInt behind reference argument arg"""
    r = mk("deref", arg)
    t = strip_at(t)
    W, U = mk("prj", r, ("f", 0)), mk("prj", r, ("f", 1))
    if t is W:
        return True
    return t.op == "prj" and t.a[0] is W and t.a[1][0] == "r" and t.a[1][1] is I(0) and t.a[1][2] is U


def subst(t, call, v):
    """the value of t when the kernel call returns v (None if it is not a function of it alone)"""
    if t is call:
        return v
    if isint(t):
        return t.a[0]
    if t.op == "lin":
        c, s = t.a[0], t.a[0]
        for x, n in t.a[1]:
            y = subst(x, call, v)
            if y is None:
                return None
            s += n * y
        return s
    if t.op in ("lt", "eq"):
        a, b = subst(t.a[0], call, v), subst(t.a[1], call, v)
        return None if a is None or b is None else int(a < b if t.op == "lt" else a == b)
    if t.op == "ite":
        c = subst(t.a[0], call, v)
        return None if c is None else subst(t.a[1] if c else t.a[2], call, v)
    if t.op == "cast":
        return subst(t.a[-1], call, v)
    if t.op == "bin":
        a, b = subst(t.a[1], call, v), subst(t.a[2], call, v)
        if a is None or b is None:
            return None
        o = t.a[0]
        if o in ("Div", "Rem"):
            return None if b == 0 else (a // b if o == "Div" else a % b)
        f = {"Add": a + b, "Sub": a - b, "Mul": a * b, "BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b, "Shr": a >> b if 0 <= b < 64 else 0, "Shl": a << b if 0 <= b < 64 else 0}
        return f.get(o)
    if t.op == "un" and t.a[0] == "Not":
        a = subst(t.a[1], call, v)
        return None if a is None else int(not a)
    if t.op == "call" and re.search(r"::div_ceil$", t.a[0]):
        a, b = (subst(x, call, v) for x in t.a[2])
        return None if a is None or not b else -(-a // b)
    if t.op == "call" and re.search(r"::(is_zero|len_bits)$", t.a[0]):
        return None
    return None


SPEC = {
    # method: (kernel, operands that must be whole, kernel results, expected value)
    "equals": ("eq", 2, (0, 1), lambda v: v),
    "less_than": ("cmp_lt", 2, (0, 1), lambda v: v),
    "is_coprime": ("coprime", 2, (0, 1), lambda v: v),
    "is_zero": ("bitsize", 1, (0, 1, 2, 63, 64, 65, 511, 512, 1024, 8192), lambda v: int(v == 0)),
    "len_bits": ("bitsize", 1, range(0, 8300), lambda v: v),
    "len_bytes": ("bitsize", 1, range(0, 8300), lambda v: (v + 7) // 8),
}


def posint(ctx, names):
    ctx.rule("posint-predicates", "the big-integer comparisons and size tests used as gates (%s) are decided by the comparison kernel over exactly the words in use of each operand, starting at the lowest word, and return its verdict unchanged" % ", ".join(names))
    for arch, crate in archs(ctx):
        got = 0
        for k, f in sorted(crate.fns.items()):
            n = f["path"].rsplit("::", 1)[-1]
            if f.get("local") and f.get("body") and re.search(r"low::posint::PosInt$", f.get("self_adt") or "") and n in names:
                got += 1
                guarded(ctx, k + "/" + arch, predicate, arch, crate, k, n)
        ctx.floor("PosInt predicates (%s)" % arch, got, len(names))


def predicate(ctx, arch, crate, key, name):
    E = ctx.engine(crate, opaque=lambda k, p: bool(KERNELS.search(p)))
    outs, av = E.entry(key)
    ctx.done(E)
    site, where = "%s/%s" % (key, arch), ctx.locate(crate, key)
    args = [a.a[0][1] for a in av[:2]]
    if name == "is_even":
        w0 = mk("prj", mk("prj", mk("deref", args[0]), ("f", 0)), ("i", I(0)))
        for o in outs:
            r = {v: subst(o.ret, w0, v) for v in range(0, 1024)}
            ctx.ob("posint-predicates", site, all(r[v] == int(v % 2 == 0) for v in r), "not the parity of the lowest word: %s" % show(o.ret, 5)[:160], where)
        return
    kn, nops, vals, want = SPEC[name]
    for o in outs:
        calls = [t for t in dep_set(E, o.ret) if isinstance(t, T) and kernel(t)]
        why = None
        if len(calls) != 1 or kernel(calls[0]) != kn:
            # another construction: it must at least read every word in use of every operand
            for a in args[:nops]:
                if not covers_words(E, o.ret, a):
                    why = "a result that does not depend on every word in use of every operand: %s" % show(o.ret, 5)[:160]
        else:
            c = calls[0]
            ops = [x for x in c.a[2]][:nops]
            if not all(whole_words(E, x, a) for x, a in zip(ops, args)):
                why = "the kernel is not given exactly the words in use of each operand: %s" % show(c, 6)[:200]
            else:
                bad = [v for v in vals if subst(o.ret, c, v) != want(v)]
                if bad:
                    why = "wrong verdict when the kernel returns %d: %s" % (bad[0], show(o.ret, 5)[:120])
        ctx.ob("posint-predicates", site, why is None, why or "", where)
        ctx.count("predicate outcomes")


def covers_words(E, t, arg):
    r = mk("deref", arg)
    W = mk("prj", r, ("f", 0))
    for x in dep_set(E, t):
        if isinstance(x, T) and (x is W or x.op == "prj" and x.a[0] is W and (x.a[1][0] == "r" and x.a[1][1] is I(0) or x.a[1][0] == "i" and not isint(x.a[1][1]))):
            return True
    return False
