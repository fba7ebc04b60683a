"""Queries over terms and outcomes used by the rules."""
import re
from .engine import *


def is_ok(o):
    return o.ret.op == "agg" and o.ret.a[0] == "core::result::Result" and o.ret.a[1] == 0


def is_err(o):
    return o.ret.op == "agg" and o.ret.a[0] == "core::result::Result" and o.ret.a[1] == 1


def strip_at(t):
    while t.op == "at":
        t = t.a[0]
    return t


def base_of(t):
    """(root term, [projection elements outermost last])"""
    pr = []
    while t.op == "prj":
        pr.append(t.a[1])
        t = t.a[0]
    pr.reverse()
    return t, pr


def covers(E, t, root):
    """How much of object `root` (a term, e.g. deref(sym)) the value `t` depends on.
    Returns a set of markers: 'whole', ('part', elem), ('exact', n), ('rem', n)"""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if x is root:
            out.add("whole")
            continue
        if x.op == "len":
            # lengths are not contents
            continue
        if x.op == "prj" and x.a[0] is root:
            out.add(part(E, x.a[1], root))
            st.append(x.a[1])
            continue
        if x.op == "ref":
            continue
        if x.op == "phi":
            st.extend(E.phis.get(x, ()))
            continue
        st.extend(x.a)
    return out


def part(E, e, root):
    if e[0] == "r":
        lo, hi = e[1], e[2]
        if lo.op == "itidx":
            k = E.iters.get(lo.a[0])
            if k and k[0] == "chunks":
                return "whole" if ptr_whole(E, k[1], root) else ("part", e)
            if k and k[0] in ("chunks_exact",):
                return ("exact", k[2]) if ptr_whole(E, k[1], root) else ("part", e)
        d = sub(hi, lo)
        if d.op == "remlen":
            return ("rem", d.a[1])
    if e[0] == "i" and e[1].op == "itidx":
        k = E.iters.get(e[1].a[0])
        if k and k[0] == "iter" and ptr_whole(E, k[1], root):
            return "whole"
    return ("part", e)


def ptr_whole(E, p, root):
    return p.op == "ref" and root.op == "deref" and p.a[0] == ("S", root.a[0]) and not p.a[1]


def covers_whole(E, t, root):
    c = covers(E, t, root)
    if "whole" in c:
        return True
    ex = {x[1] for x in c if isinstance(x, tuple) and x[0] == "exact"}
    rm = {x[1] for x in c if isinstance(x, tuple) and x[0] == "rem"}
    if ex & rm:
        return True
    return covers_ranges(E, c, root)


def covers_ranges(E, c, root):
    """a chain of adjacent ranges [0,a) [a,b) ... [z,len)"""
    ln = None
    if root.op == "deref":
        ln = mk("len", root.a[0])
    rs = [x[1] for x in c if isinstance(x, tuple) and x[0] == "part" and x[1][0] == "r"]
    if not rs or ln is None:
        return False
    pos = {I(0)}
    ch = True
    while ch:
        ch = False
        for e in rs:
            if e[1] in pos and e[2] not in pos:
                pos.add(e[2])
                ch = True
    return ln in pos


def depends(E, t, pred):
    return any(pred(x) for x in subterms(t, phis=E.phis) if isinstance(x, T))


def all_zero(E, t, ln=None, facts=None):
    """t is a value every byte of which is 0"""
    if t.op == "rep":
        return isint(t.a[0]) and t.a[0].a[0] == 0
    if t.op == "int":
        return t.a[0] == 0
    if t.op == "bytes":
        return not any(t.a[0])
    if t.op == "agg":
        return all(all_zero(E, x) for x in t.a[2:])
    if t.op == "upd":
        return all_zero(E, t.a[0]) and all_zero(E, t.a[2])
    if t.op == "out":
        c = t.a[0]
        return c.op == "call" and bool(re.search(r"::zeroise(_value)?$", c.a[0])) and t.a[1] == 0
    return False


def filled(E, o, content, root):
    """content is all-zero at outcome o, either directly or through a loop over the whole object that stores 0 everywhere"""
    if all_zero(E, content):
        return True
    if content.op == "upd" and content.a[1][0] == "r":
        # disjoint range writes: every range of the object is zero
        return False
    if content.op == "phi":
        inc = E.phis.get(content, {})
        ok = False
        for x in inc:
            if x.op == "upd" and x.a[0] is content and all_zero(E, x.a[2]) and x.a[1][0] in ("i", "r"):
                k = x.a[1][1]
                p = part(E, x.a[1], root)
                if p == "whole" and mk("exhausted", k.a[0]) in o.st.ev:
                    ok = True
                    continue
                # index loop: i from 0, step 1, exit when i >= len
                if x.a[1][0] == "i" and k.op == "phi":
                    ki = E.phis.get(k, {})
                    if I(0) in ki and all(y is I(0) or y is add(k, I(1)) for y in ki):
                        ln = mk("len", root.a[0]) if root.op == "deref" else None
                        if ln is not None and o.st.facts.get(b_lt(k, ln)) is FALSE:
                            ok = True
                            continue
                return False
            # the initial value
        return ok
    return False


def facts_true(o):
    """terms known true on this path"""
    return [t for t, v in o.st.facts.items() if isint(v) and v.a[0] == 1]


def facts_false(o):
    return [t for t, v in o.st.facts.items() if isint(v) and v.a[0] == 0]


def equalities(E, o):
    """(kind, X, Y) pairs of byte strings known to be entirely equal (all bytes) at outcome o"""
    r = []
    for t in facts_true(o):
        if t.op == "call" and re.search(r"::ct_equal$", t.a[0]) and len(t.a[2]) == 2:
            r.append(("ct", strip_at(t.a[2][0]), strip_at(t.a[2][1])))
        elif t.op == "seqeq":
            r.append(("vt", t.a[0], t.a[1]))
        elif t.op == "eq" and not isint(t.a[1]):
            r.append(("eq", t.a[0], t.a[1]))
    return r


def int_parts(E, t, root):
    """set of byte positions of root (ints) that t reads through constant projections, or None if it reads the whole object"""
    pos = set()
    for c in covers(E, t, root):
        if c == "whole":
            return None
        if c[0] == "part":
            e = c[1]
            if e[0] == "i" and isint(e[1]):
                pos.add(e[1].a[0])
            elif e[0] == "r" and isint(e[1]) and isint(e[2]):
                pos.update(range(e[1].a[0], e[2].a[0]))
    return pos


def reads_bytes(E, t, root, lo, hi):
    p = int_parts(E, t, root)
    return p is None or set(range(lo, hi)) <= p


def bool_fact(o, t):
    """True/False if the boolean-valued term is known at o, else None"""
    v = o.st.facts.get(t)
    return None if v is None or not isint(v) else bool(v.a[0])


EQ_CALLS = re.compile(r"::(ct_equal|bignum_eq)$")


def eq_facts(E, o, value=True):
    """(X, Y) contents known entirely equal (value=True) or known different (False) at o: slice equality, ct_equal, bignum_eq"""
    r = []
    for t, v in o.st.facts.items():
        if not isint(v) or bool(v.a[0]) != value:
            continue
        if t.op == "call" and EQ_CALLS.search(t.a[0]) and len(t.a[2]) == 2:
            r.append((strip_at(t.a[2][0]), strip_at(t.a[2][1])))
        elif t.op == "seqeq":
            r.append((t.a[0], t.a[1]))
        elif t.op == "eq" and v.a[0] in (0, 1) and not isint(t.a[1]):
            r.append((t.a[0], t.a[1]))
    return r


def both(pairs):
    for x, y in pairs:
        yield x, y
        yield y, x


def dep_set(E, t):
    return subterms(t, phis=E.phis)


def method_keys(crate, adt_re, name_re=r".*", public=True):
    """keys of (public) inherent methods of ADTs matching adt_re"""
    r = []
    for k, f in crate.fns.items():
        if not f.get("local") or not f.get("body") or f.get("kind") != "AssocFn":
            continue
        if not f.get("self_adt") or not re.search(adt_re, f["self_adt"]):
            continue
        if public and f.get("vis") != "Public":
            continue
        if "::{closure" in k or k.startswith("<"):
            continue
        if re.search(name_re, f["path"].rsplit("::", 1)[-1]):
            r.append(k)
    return sorted(r)


def ret_ty(crate, key):
    return crate.types[crate.fns[key]["body"]["locals"][0][0]]


def arg_tys(crate, key):
    b = crate.fns[key]["body"]
    return [crate.types[b["locals"][i][0]] for i in range(1, b["argc"] + 1)]


def exported(crate, prefix):
    """adt path -> public name for exported structs under prefix"""
    return {p: pub for pub, p, kind in crate.exports if pub.startswith(prefix) and kind in ("Struct", "Enum")}


def leaves(E, t):
    """possible values of t: phis and conditionals expanded"""
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and E.phis.get(x):
            st.extend(E.phis[x])
        elif x.op == "ite":
            st.extend(x.a[1:])
        else:
            out.append(x)
    return out


def call_sites(f):
    """(callee dict or None, terminator) of each call in the body, calls on unwinding paths excluded"""
    for b in f["body"]["blocks"]:
        t = b["t"]
        if isinstance(t, dict) and t.get("k") == "call" and not b.get("cl"):
            c = t["f"][1].get("fn") if t["f"][0] == "k" and isinstance(t["f"][1], dict) else None
            yield c, t


def call_paths(f):
    r = set()
    for c, t in call_sites(f):
        if c:
            r.add(c.get("rpath") or c["path"])
            r.add(c["key"])
    return r
