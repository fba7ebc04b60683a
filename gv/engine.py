"""Guard & provenance dataflow over MIR.

An abstract interpreter that never runs the program: values are hash-consed provenance terms, memory is a map from
abstract objects to terms, branch conditions become facts attached to the abstract state, loops are widened to phi
terms until stable, and calls are either inlined (local code) or kept opaque (the call itself becomes a term whose
arguments are the contents it read).  Rules ask, for every abstract path to a given outcome, which facts dominate it
and where its values come from.
"""
import re, sys
sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "n")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.n = len(_tab)
        _tab[k] = t
    return t


def show(t, d=6):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d == 0:
        return "…"
    if t.op == "int":
        return str(t.a[0])
    if t.op == "bytes":
        return "b'" + t.a[0].hex()[:24] + "'"
    if t.op == "sym":
        return str(t.a[0])
    if t.op == "call":
        return short(t.a[0]) + "(" + ", ".join(show(x, d - 1) for x in t.a[2]) + ")"
    if t.op == "out":
        return "out%s of %s" % (t.a[1], show(t.a[0], d - 1))
    if t.op == "agg":
        return "%s#%s{%s}" % (short(str(t.a[0])), t.a[1], ", ".join(show(x, d - 1) for x in t.a[2:]))
    if t.op == "prj":
        return show(t.a[0], d - 1) + "." + show(t.a[1], d - 1)
    if t.op == "phi":
        return "φ%d" % t.n
    return t.op + "(" + ", ".join(show(x, d - 1) for x in t.a) + ")"


def short(p):
    return re.sub(r"[A-Za-z_0-9]+::", "", p)


def I(v):
    return mk("int", int(v))


TRUE, FALSE = I(1), I(0)
UNIT = mk("agg", "()", 0)
UNDEF = mk("undef")


def isint(t):
    return t.op == "int"


# ---------------------------------------------------------------- linear arithmetic
def _lin(t):
    if t.op == "int":
        return t.a[0], {}
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _unlin(c, d):
    d = {t: k for t, k in d.items() if k}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        t, k = next(iter(d.items()))
        if k == 1:
            return t
    return mk("lin", c, tuple(sorted(d.items(), key=lambda x: x[0].n)))


def add(a, b, s=1):
    c, d = _lin(a)
    c2, d2 = _lin(b)
    d = dict(d)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + s * k
    return _unlin(c + s * c2, d)


def sub(a, b):
    return add(a, b, -1)


def mulc(a, k):
    c, d = _lin(a)
    return _unlin(c * k, {t: x * k for t, x in d.items()})


# ---------------------------------------------------------------- booleans
def b_not(t):
    if t.op == "int":
        return I(0 if t.a[0] else 1)
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def b_eq(a, b):
    if a is b:
        return TRUE
    if isint(a) and isint(b):
        return I(a.a[0] == b.a[0])
    if a.op == "bytes" and b.op == "bytes":
        return I(a.a[0] == b.a[0])
    if isint(a):
        a, b = b, a
    if isint(b):
        if a.op == "lin":
            c, d = _lin(a)
            if len(d) == 1:
                t, k = next(iter(d.items()))
                if k == 1:
                    return b_eq(t, I(b.a[0] - c))
                if k == -1:
                    return b_eq(t, I(c - b.a[0]))
        return mk("eq", a, b)
    d = sub(a, b)
    if isint(d):
        return I(d.a[0] == 0)
    if a.n > b.n:
        a, b = b, a
    return mk("eq", a, b)


def b_lt(a, b):
    if a is b:
        return FALSE
    if isint(a) and isint(b):
        return I(a.a[0] < b.a[0])
    d = sub(a, b)
    if isint(d):
        return I(d.a[0] < 0)
    # move constants to the right side:  x + c < k   ->  x < k - c
    ca, da = _lin(a)
    cb, db = _lin(b)
    if ca and cb:
        m = min(ca, cb)
        a, b = _unlin(ca - m, da), _unlin(cb - m, db)
    if a.op == "lin" and not isint(b) and False:
        pass
    return mk("lt", a, b)


def b_and(a, b):
    if isint(a):
        return b if a.a[0] else FALSE
    if isint(b):
        return a if b.a[0] else FALSE
    if a is b:
        return a
    return mk("and", a, b)


def b_or(a, b):
    return b_not(b_and(b_not(a), b_not(b)))


# ---------------------------------------------------------------- structured values
def agg(name, vi, *fs):
    return mk("agg", name, vi, *fs)


def ranges_disjoint(a, b):
    """path elements a, b of the same array definitely do not overlap"""
    def lohi(e):
        if e[0] == "i":
            return e[1], add(e[1], I(1))
        return e[1], e[2]
    la, ha = lohi(a)
    lb, hb = lohi(b)
    for h, l in ((ha, lb), (hb, la)):
        d = sub(l, h)
        if isint(d) and d.a[0] >= 0:
            return True
        if d.op in ("len",) or (d.op == "lin" and d.a[0] >= 0 and all(k > 0 for _, k in d.a[1])):
            return True
    return False


def project(t, e):
    k = e[0]
    op = t.op
    if op == "agg":
        if k == "d":
            if t.a[1] == e[1]:
                return t
            return mk("prj", t, e)
        if k == "f" and isinstance(e[1], int) and e[1] + 2 < len(t.a):
            return t.a[2 + e[1]]
        if k == "i" and isint(e[1]) and t.a[0] == "array" and e[1].a[0] + 2 < len(t.a):
            return t.a[2 + e[1].a[0]]
        if k == "r" and t.a[0] == "array" and isint(e[1]) and isint(e[2]):
            return agg("array", 0, *t.a[2 + e[1].a[0]:2 + e[2].a[0]])
        return mk("prj", t, e)
    if op == "ite":
        c, x, y = t.a
        return mkite(c, project(x, e), project(y, e))
    if op == "rep":
        if k == "i":
            return t.a[0]
        if k == "r":
            return mk("rep", t.a[0], sub(e[2], e[1]))
    if op == "bytes":
        if k == "i" and isint(e[1]) and 0 <= e[1].a[0] < len(t.a[0]):
            return I(t.a[0][e[1].a[0]])
        if k == "r" and isint(e[1]) and isint(e[2]):
            return mk("bytes", t.a[0][e[1].a[0]:e[2].a[0]])
    if op == "upd":
        b, e2, v = t.a
        if e2 == e:
            return v
        if k in ("f", "d") and e2[0] in ("f", "d"):
            if k == "f" and e2[0] == "f":
                return project(b, e)
            if k == "d" and e2[0] == "d":
                return project(b, e)
            return mk("prj", t, e)
        if k in ("i", "r") and e2[0] in ("i", "r"):
            if ranges_disjoint(e, e2):
                return project(b, e)
            if e2[0] == "r":
                lo = sub(e[1], e2[1])
                if k == "i":
                    h = sub(e2[2], e[1])
                    if isint(lo) and lo.a[0] >= 0 and isint(h) and h.a[0] > 0:
                        return project(v, ("i", lo))
                else:
                    h = sub(e2[2], e[2])
                    if isint(lo) and lo.a[0] >= 0 and isint(h) and h.a[0] >= 0:
                        return project(v, ("r", lo, sub(e[2], e2[1])))
        return mk("prj", t, e)
    if op == "prj" and k in ("i", "r") and t.a[1][0] == "r":
        e2 = t.a[1]
        if k == "i":
            return project(t.a[0], ("i", add(e2[1], e[1])))
        return project(t.a[0], ("r", add(e2[1], e[1]), add(e2[1], e[2])))
    return mk("prj", t, e)


def update(t, path, val):
    if not path:
        return val
    e = path[0]
    k = e[0]
    if t.op == "agg":
        if k == "f" and isinstance(e[1], int) and e[1] + 2 < len(t.a):
            i = 2 + e[1]
            return mk("agg", *(t.a[:i] + (update(t.a[i], path[1:], val),) + t.a[i + 1:]))
        if k == "d" and t.a[1] == e[1]:
            return update(t, path[1:], val)
        if k == "i" and t.a[0] == "array" and isint(e[1]) and e[1].a[0] + 2 < len(t.a):
            i = 2 + e[1].a[0]
            return mk("agg", *(t.a[:i] + (update(t.a[i], path[1:], val),) + t.a[i + 1:]))
    nv = update(project(t, e), path[1:], val) if len(path) > 1 else val
    # writes to a place replace earlier writes to the same place
    if t.op == "upd" and t.a[1] == e:
        t = t.a[0]
    return mk("upd", t, e, nv)


def mkite(c, x, y):
    if x is y:
        return x
    if isint(c):
        return x if c.a[0] else y
    return mk("ite", c, x, y)


def extend(path, e):
    if path and path[-1][0] == "r" and e[0] in ("i", "r"):
        lo = path[-1][1]
        if e[0] == "i":
            return path[:-1] + (("i", add(lo, e[1])),)
        return path[:-1] + (("r", add(lo, e[1]), add(lo, e[2])),)
    return path + (e,)


def ref(obj, path=(), meta=None, mut=False):
    return mk("ref", obj, path, meta, bool(mut))


# ---------------------------------------------------------------- dependencies
def subterms(t, seen=None, phis=None, stop=None):
    """all terms reachable from t (through phis if given)"""
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            st.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        if stop and stop(x):
            continue
        st.extend(x.a)
        if x.op == "phi" and phis:
            st.extend(phis.get(x, ()))
    return seen


class State:
    __slots__ = ("mem", "facts", "ne", "ev")

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.ne = {}
        self.ev = {}

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.ne = dict(self.ne)
        s.ev = dict(self.ev)
        return s


class Outcome:
    def __init__(self, state, ret, kind="return", where=None):
        self.st = state
        self.ret = ret
        self.kind = kind
        self.where = where


class Frame:
    __slots__ = ("uid", "key", "body", "fn", "depth", "cfg")


class Imprecise(Exception):
    pass


class CFG:
    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = []
        for b in bl:
            t = b["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert"):
                s = [t["t"]]
            elif k == "switch":
                s = [x[1] for x in t["vals"]] + [t["else"]]
            elif k == "call":
                s = [t["t"]] if t["t"] is not None else []
            elif k == "asm":
                s = list(t["ts"])
            else:
                s = []
            self.succ.append(s)
        # reverse post order
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(self.succ[x])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                if s in pred:
                    pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    d = self._inter(idom, d, p)
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in self.rpo and self.dom(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body_:
                            body_.add(x)
                            w.extend(pred[x])

    def _inter(self, idom, a, b):
        while a != b:
            while self.rpo[a] > self.rpo[b]:
                a = idom[a]
            while self.rpo[b] > self.rpo[a]:
                b = idom[b]
        return a

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


DEFAULT_OPAQUE = re.compile(r"^(<)?graviola::low::(?!ct::)")


# functions that answer differently each time they are called with the same arguments
FRESH = re.compile(r"::\w*(random|generate|encaps)\w*$|::start(_and_complete)?$")


class Engine:
    def __init__(self, crate, opaque=None, inline=None, K=16, maxdepth=40, models=None, drop_inline=False):
        self.iterids = {}
        self.proms = {}
        self.site = None
        self.c = crate
        self.types = crate.types
        self.fns = crate.fns
        self.phis = {}
        self.opaque = opaque if opaque is not None else (lambda key, path: bool(DEFAULT_OPAQUE.match(path)))
        self.K = K
        self.eager = True  # join paths on return from functions whose value carries no outcome
        self.maxdepth = maxdepth
        self.uid = 0
        self.cfgs = {}
        self.seen_opaque = {}
        self.unroll = 16
        self.on_back = None  # called with every state that goes round a loop again
        self.inlined = {}
        self.analysed = set()
        self.panics = []
        self.sites = 0
        self.drop_inline = drop_inline
        self.models = models or {}
        self.callinfo = {}
        self.iters = {}
        self.bounds = {}        # iteration that visits only part: id -> ("take" | "skip", count)
        self.callreg = {}
        self.where = {}
        self.budget = 400000
        from . import models as M
        self.M = M

    # ------------------------------------------------------------ helpers
    def fresh(self, name):
        self.uid += 1
        return mk("sym", "%s'%d" % (name, self.uid))

    def tyof_place(self, fr, pl):
        t = fr.body["locals"][pl[0]][0]
        for e in pl[1]:
            if t is None:
                return None
            ty = self.types[t]
            if e == "*":
                t = ty.get("e")
                if t is None and ty["k"] == "adt" and ty.get("args"):
                    t = ty["args"][0] if isinstance(ty["args"][0], int) else None
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = ty.get("e")
        return t

    def tyof_op(self, fr, op):
        if op[0] == "k":
            return op[1].get("ty")
        return self.tyof_place(fr, op[1])

    def load(self, st, obj, path):
        t = self.content(st, obj)
        for e in path:
            t = project(t, e)
        return t

    def content(self, st, obj):
        t = st.mem.get(obj)
        if t is None:
            k = obj[0]
            if k == "S":
                t = mk("deref", obj[1])
            elif k == "K":
                t = obj[1]
            elif k == "G":
                t = mk("static", obj[1])
                g = self.c.statics.get(obj[1])
                if g and not g["mut"] and g.get("body") and self.types[g["ty"]]["k"] == "ref":
                    v = self.eval_promoted("static " + obj[1], g["body"], st)
                    if v is not None:
                        t = v
            else:
                t = UNDEF
        return t

    def store(self, st, obj, path, val):
        if path:
            st.mem[obj] = update(self.content(st, obj), path, val)
        else:
            st.mem[obj] = val

    def deref(self, t):
        """(obj, path, meta) a pointer term points to"""
        if t.op == "ref":
            return t.a[0], t.a[1], t.a[2]
        return ("S", t), (), mk("len", t)

    def place(self, st, fr, pl):
        obj, path, meta = ("L", fr.uid, pl[0]), (), None
        chunk = None
        for e in pl[1]:
            if e == "*":
                p = self.load(st, obj, path)
                if p.op == "agg" and p.a[0] == "chunkview":
                    chunk = p.a[3]
                    p = p.a[2]
                obj, path, meta = self.deref(p)
                continue
            k = e[0]
            if chunk is not None:
                i = self.load(st, ("L", fr.uid, e[1]), ()) if k == "i" else I(e[1]) if k == "ci" and not e[3] else self.fresh("i")
                lo = mulc(i, chunk.a[0])
                path = extend(path, ("r", lo, add(lo, chunk)))
                meta = chunk
                chunk = None
                continue
            if k == "f":
                path = extend(path, ("f", e[1]))
            elif k == "d":
                path = extend(path, ("d", e[1]))
            elif k == "i":
                path = extend(path, ("i", self.load(st, ("L", fr.uid, e[1]), ())))
            elif k == "ci":
                i = I(e[1]) if not e[3] else sub(meta if meta is not None else self.fresh("len"), I(e[1]))
                path = extend(path, ("i", i))
            elif k == "ss":
                ln = meta
                if not e[3]:
                    hi = I(e[2])
                else:
                    hi = sub(ln if ln is not None else self.fresh("len"), I(e[2]))
                lo = I(e[1])
                path = extend(path, ("r", lo, hi))
                meta = sub(hi, lo)
                continue
            else:
                path = path + (("?",),)
            meta = None
        return obj, path, meta

    def len_of(self, t):
        """length term of the slice/array a pointer points to"""
        if t.op == "agg" and t.a[0] == "chunkview":
            l = self.len_of(t.a[2])
            return I(l.a[0] // t.a[3].a[0]) if isint(l) else mk("bin", "Div", l, t.a[3])
        if t.op == "ref":
            o, p, m = t.a[0], t.a[1], t.a[2]
            if m is not None:
                return m
            if p and p[-1][0] == "r":
                return sub(p[-1][2], p[-1][1])
            return mk("len", t)
        return mk("len", t)

    def slice_ref(self, t, lo, hi):
        """sub-slice pointer [lo..hi) of pointer t"""
        o, p, m = self.deref(t)
        ln = self.len_of(t)
        mut = t.a[3] if t.op == "ref" else True
        if isint(lo) and lo.a[0] == 0 and hi is ln:
            return ref(o, p, ln, mut)
        return ref(o, extend(p, ("r", lo, hi)), sub(hi, lo), mut)

    def rd(self, st, t):
        """contents behind pointer t"""
        o, p, _ = self.deref(t)
        return self.load(st, o, p)

    def wr(self, st, t, v):
        o, p, _ = self.deref(t)
        self.store(st, o, p, v)

    # ------------------------------------------------------------ constants
    def const(self, st, c):
        if "fn" in c:
            g = c["fn"]
            self.callreg[g["key"]] = g
            return mk("fn", g["key"])
        ty = self.types[c["ty"]] if "ty" in c else {"k": "other", "s": "?"}
        if "fs" in c and ty["k"] in ("adt", "tuple"):
            return agg(ty.get("path", "tuple"), c["vi"], *[self.const(st, f) for f in c["fs"]])
        if "v" in c:
            if ty["k"] == "adt":
                return mk("kadt", ty["s"], c["v"])
            return I(c["v"])
        if c.get("zst"):
            if ty["k"] == "fndef":
                return mk("fn", ty.get("key", ty["path"]))
            if ty["k"] == "closure":
                return agg("closure", 0, *())
            return agg(ty.get("path", ty["s"]), 0)
        if ("rel" in c or ty["k"] in ("tuple", "array")) and c.get("def") in self.c.consts and "promoted" not in c:
            g = self.c.consts[c["def"]].get("body")
            e = self.types[ty["e"]] if ty["k"] == "array" and ty.get("e") is not None else None
            if g and not (e and e["k"] in ("uint", "int")):
                r = self.eval_promoted("const " + c["def"], g, st)
                if r is not None:
                    return self.freeze(st, r)
        if "slice" in c:
            if "rel" in c:
                return ref(("K", mk("krel", c["slice"], str(c["rel"]))), (), I(c["len"]))
            e = ty.get("e")
            et = self.types[e] if e is not None else {"k": "str"}
            return ref(("K", self.decode({"k": "array", "e": et.get("e"), "n": c["len"]} if et["k"] == "slice" else None, bytes.fromhex(c["slice"]))), (), I(c["len"]))
        if "promoted" in c:
            pb = self.c.promoted.get(c["promoted"])
            if pb:
                r = self.eval_promoted(c["promoted"], pb, st)
                if r is not None:
                    return r
        if "refbytes" in c:
            e = ty.get("e")
            et = self.types[e] if e is not None else None
            h = bytes.fromhex(c["refbytes"])
            if "rel" in c or len(h) < c.get("reflen", len(h)):
                return ref(("K", mk("krel", c["refbytes"], str(c.get("rel")))), (), None)
            n = et.get("n") if et and et["k"] == "array" else None
            return ref(("K", self.decode(et, h)), (), I(n) if n is not None else None)
        if "static" in c:
            return ref(("G", c["static"]), ())
        if "fnptr" in c:
            return mk("fn", c["fnptr"])
        if "bytes" in c:
            h = bytes.fromhex(c["bytes"])
            if "rel" in c or len(h) < c.get("len", len(h)):
                return mk("krel", c["bytes"], str(c.get("rel")), c.get("def", ""))
            return self.decode(ty, h)
        if "UbChecks" in str(c.get("dbg") or ""):
            return I(0)  # library precondition checks: compiled out in release builds, and reachable only on undefined behaviour
        return mk("kdbg", str(c.get("dbg") or c.get("def")))

    def decode(self, ty, h):
        if ty is None:
            return mk("bytes", h)
        if ty["k"] == "array" and ty.get("e") is not None:
            et = self.types[ty["e"]]
            if et["k"] in ("uint", "int") and et.get("size"):
                sz = et["size"]
                if sz == 1 and et["k"] == "uint":
                    return mk("bytes", h)
                if len(h) // sz <= 64:
                    return agg("array", 0, *[I(int.from_bytes(h[i:i + sz], "little", signed=et["k"] == "int")) for i in range(0, len(h), sz)])
        if ty["k"] in ("uint", "int", "bool", "char"):
            return I(int.from_bytes(h, "little", signed=ty["k"] == "int"))
        return mk("kbytes", ty.get("s", "?"), h)

    def freeze(self, st, t, d=8):
        """the value with its pointers to constant memory made independent of the state"""
        if d and t.op == "ref" and t.a[0][0] == "L" and t.a[0] in st.mem:
            return ref(("K", self.freeze(st, st.mem[t.a[0]], d - 1)), t.a[1], t.a[2], t.a[3])
        if d and t.op == "agg":
            return mk("agg", t.a[0], t.a[1], *[self.freeze(st, x, d - 1) if isinstance(x, T) else x for x in t.a[2:]])
        return t

    def eval_promoted(self, name, body, st):
        got = self.proms.get(name)
        if got is None:
            fr = Frame()
            self.uid += 1
            fr.uid = "p" + name
            fr.key = name
            fr.body = body
            fr.fn = {"path": name}
            fr.depth = self.maxdepth - 4
            fr.cfg = self.cfg(name, body)
            s2 = State()
            outs = self.run_fn(fr, s2)
            outs = [o for o in outs if o.kind == "return"]
            if len(outs) != 1:
                self.proms[name] = (None, {})
                return None
            got = self.proms[name] = (outs[0].ret, dict(outs[0].st.mem))
        for o, x in got[1].items():
            if st.mem.get(o) is not x:
                st.mem[o] = x
        return got[0]

    def cfg(self, key, body):
        g = self.cfgs.get(key)
        if g is None:
            g = self.cfgs[key] = CFG(body)
        return g

    # ------------------------------------------------------------ facts
    def ev(self, st, t):
        """simplify a term with the facts of the state"""
        if t.op == "int":
            return t
        v = st.facts.get(t)
        if v is not None:
            return v
        if t.op == "not":
            return b_not(self.ev(st, t.a[0]))
        if t.op == "and":
            return b_and(self.ev(st, t.a[0]), self.ev(st, t.a[1]))
        if t.op == "eq":
            a, b = self.ev(st, t.a[0]), self.ev(st, t.a[1])
            if isint(b) and b.a[0] in st.ne.get(a, ()):
                return FALSE
            if a is not t.a[0] or b is not t.a[1]:
                return b_eq(a, b)
        if t.op == "lt":
            a, b = self.ev(st, t.a[0]), self.ev(st, t.a[1])
            if a is not t.a[0] or b is not t.a[1]:
                return b_lt(a, b)
            if isint(b) and b.a[0] <= 0 and a.op in ("len",):
                return FALSE
        if t.op == "lin":
            r = I(t.a[0])
            for x, k in t.a[1]:
                r = add(r, mulc(self.ev(st, x), k))
            return r
        return t

    def assume(self, st, t, v):
        """record t == v (int); False if contradictory"""
        cur = self.ev(st, t)
        if isint(cur):
            return cur.a[0] == v
        if v in st.ne.get(t, ()):
            return False
        if t.op == "not":
            return self.assume(st, t.a[0], 0 if v else 1)
        st.facts[t] = I(v)
        if t.op == "and" and v == 1:
            return self.assume(st, t.a[0], 1) and self.assume(st, t.a[1], 1)
        if t.op == "and" and v == 0:
            a, b = self.ev(st, t.a[0]), self.ev(st, t.a[1])
            if isint(a) and a.a[0] == 1:
                return self.assume(st, b, 0)
            if isint(b) and b.a[0] == 1:
                return self.assume(st, a, 0)
        if t.op == "eq" and v == 1:
            a, b = t.a
            if isint(b):
                return self.assume(st, a, b.a[0])
        if t.op == "eq" and v == 0:
            a, b = t.a
            if isint(b):
                return self.assume_ne(st, a, b.a[0])
        if t.op == "xor" and False:
            pass
        return True

    def assume_ne(self, st, t, v):
        cur = self.ev(st, t)
        if isint(cur):
            return cur.a[0] != v
        if t.op in ("eq", "lt", "not", "and") and v in (0, 1):
            return self.assume(st, t, 1 - v)
        st.ne[t] = st.ne.get(t, frozenset()) | {v}
        return True

    # ------------------------------------------------------------ rvalues
    def operand(self, st, fr, op):
        if op[0] == "k":
            return self.const(st, op[1])
        o, p, m = self.place(st, fr, op[1])
        return self.load(st, o, p)

    def int_ty(self, i):
        if i is None:
            return None
        t = self.types[i]
        if t["k"] in ("int", "uint"):
            return (t["k"] == "int", t.get("size", 8) * 8)
        if t["k"] == "bool":
            return (False, 1)
        return None

    @staticmethod
    def wrap(v, it):
        if it is None:
            return v
        s, b = it
        v &= (1 << b) - 1
        if s and v >> (b - 1):
            v -= 1 << b
        return v

    def binop(self, st, fr, o, a, b, ty):
        it = self.int_ty(ty)
        isbool = it == (False, 1)
        if o in ("Eq",):
            return b_eq(a, b)
        if o == "Ne":
            return b_not(b_eq(a, b))
        if o == "Lt":
            return b_lt(a, b)
        if o == "Gt":
            return b_lt(b, a)
        if o == "Le":
            return b_not(b_lt(b, a))
        if o == "Ge":
            return b_not(b_lt(a, b))
        if isbool and o == "BitAnd":
            return b_and(a, b)
        if isbool and o == "BitOr":
            return b_or(a, b)
        if o.endswith("WithOverflow"):
            r = self.binop(st, fr, o[:-12], a, b, ty)
            return agg("tuple", 0, r, FALSE if isint(r) else mk("ovf", o, a, b))
        o2 = o.replace("Unchecked", "")
        if isint(a) and isint(b):
            x, y = a.a[0], b.a[0]
            try:
                r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "BitAnd": lambda: x & y,
                     "BitOr": lambda: x | y, "BitXor": lambda: x ^ y, "Shl": lambda: x << (y & 127), "Shr": lambda: x >> (y & 127),
                     "Div": lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), "Rem": lambda: abs(x) % abs(y) * (1 if x >= 0 else -1)}[o2]()
                return I(self.wrap(r, it))
            except (KeyError, ZeroDivisionError):
                pass
        if o2 in ("Add", "Sub") and it == (False, 64):
            return add(a, b, 1 if o2 == "Add" else -1)
        if o2 == "Mul" and it == (False, 64) and (isint(a) or isint(b)):
            return mulc(b, a.a[0]) if isint(a) else mulc(a, b.a[0])
        if o2 in ("BitOr", "BitXor", "Add") and isint(b) and b.a[0] == 0:
            return a
        if o2 in ("Shl", "Shr", "Sub") and isint(b) and b.a[0] == 0:
            return a
        if o2 in ("BitAnd",) and (isint(b) and b.a[0] == 0 or isint(a) and a.a[0] == 0):
            return I(0)
        if o2 in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and not isint(b) and (isint(a) or a.n > b.n):
            a, b = b, a
        return mk("bin", o2, a, b)

    def disc(self, st, t, ty=None):
        if t.op == "agg":
            return I(self.disc_val(t.a[0], t.a[1]))
        if t.op == "ite":
            return mkite(t.a[0], self.disc(st, t.a[1]), self.disc(st, t.a[2]))
        if t.op == "upd" and t.a[1][0] == "d":
            return self.disc(st, t.a[0])
        return mk("disc", t)

    def disc_val(self, name, vi):
        return vi

    def rvalue(self, st, fr, rv, dest_ty):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "raw"):
            if rv[2][1] and rv[2][1][-1] == "*":
                o, p, m = self.place(st, fr, [rv[2][0], rv[2][1][:-1]])
                v = self.load(st, o, p)
                if v.op == "agg" and v.a[0] == "chunkview":
                    return v
            o, p, m = self.place(st, fr, rv[2])
            t = self.tyof_place(fr, rv[2])
            if m is None and t is not None and self.types[t]["k"] == "array" and self.types[t].get("n") is not None:
                m = I(self.types[t]["n"])
            return ref(o, p, m, (rv[1] == "&mut") if k == "ref" else ("Mut" in rv[1]))
        if k == "rep":
            v = self.operand(st, fr, rv[1])
            return mk("rep", v, I(rv[2]) if rv[2] is not None else self.fresh("n"))
        if k == "agg":
            fs = [self.operand(st, fr, x) for x in rv[3]]
            kind = rv[1]
            if kind == "adt":
                return agg(rv[2]["path"], rv[2]["vi"], *fs)
            if kind == "closure":
                return agg("closure " + str(rv[2]), 0, *fs)
            if kind == "tuple" and not fs:
                return UNIT
            if kind == "rawptr":
                if fs[0].op == "ref":
                    return ref(fs[0].a[0], fs[0].a[1], fs[1] if fs[1].op != "agg" else None, fs[0].a[3])
                return fs[0]
            if kind == "array" and len(fs) > 2 and all(f is fs[0] for f in fs) and isint(fs[0]):
                return mk("rep", fs[0], I(len(fs)))
            return agg(kind, 0, *fs)
        if k == "bin":
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            return self.binop(st, fr, rv[1], self.ev(st, a), self.ev(st, b), self.tyof_op(fr, rv[2]))
        if k == "un":
            a = self.operand(st, fr, rv[2])
            it = self.int_ty(self.tyof_op(fr, rv[2]))
            if rv[1] == "Not":
                if it == (False, 1):
                    return b_not(a)
                if isint(a) and it:
                    return I(self.wrap(~a.a[0], it))
            if rv[1] == "Neg" and isint(a):
                return I(self.wrap(-a.a[0], it))
            if rv[1] == "PtrMetadata":
                return self.len_of(a)
            return mk("un", rv[1], a)
        if k == "disc":
            o, p, m = self.place(st, fr, rv[1])
            return self.ev(st, self.disc(st, self.load(st, o, p)))
        if k == "cast":
            a = self.operand(st, fr, rv[2])
            sty = self.tyof_op(fr, rv[2])
            dty = rv[3]
            kind = rv[1]
            if "Unsize" in kind:
                if sty is not None:
                    s_ = self.types[sty]
                    if s_["k"] in ("ref", "ptr"):
                        e = self.types[s_["e"]]
                        if e["k"] == "array" and e.get("n") is not None:
                            if a.op == "ref":
                                return ref(a.a[0], a.a[1], I(e["n"]), a.a[3])
                            return ref(("S", a), (), I(e["n"]), s_.get("mut"))
                return a
            if kind.startswith("IntToInt"):
                it = self.int_ty(dty)
                if isint(a) and it:
                    return I(self.wrap(a.a[0], it))
                s2 = self.int_ty(sty)
                if s2 and it and it[1] >= s2[1] and (s2[0] == it[0] or not s2[0]):
                    return a
                if a.op in ("eq", "lt", "not", "and"):
                    return a
                return mk("cast", self.types[dty]["s"], a)
            if "Ptr" in kind or "Pointer" in kind or "Transmute" in kind:
                return a
            return mk("cast", self.types[dty]["s"], a)
        if k == "tls":
            return ref(("G", rv[1]), ())
        return mk("other", fr.uid, str(rv))

    # ------------------------------------------------------------ joins
    def joinval(self, a, b, key):
        if a is b:
            return a
        if a.op == "phi" and a.a[0] == key[0] and a.a[1] == key[1:]:
            self.phis.setdefault(a, {})[b] = 1
            return a
        if a.op == "agg" and a.a[0] == "it:list" and (b.op != "agg" or len(a.a) != len(b.a)):
            return self.joinval(a.a[2], b.a[2] if b.op == "agg" and b.a[0] == "it:list" else b, key)
        if b.op == "agg" and b.a[0] == "it:list" and a is b.a[2]:
            return a
        if a.op == "agg" and b.op == "agg" and a.a[:2] == b.a[:2] and len(a.a) == len(b.a):
            return mk("agg", a.a[0], a.a[1], *[self.joinval(x, y, key + (i,)) for i, (x, y) in enumerate(zip(a.a[2:], b.a[2:]))])
        if a.op == "ref" and b.op == "ref" and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            ok, pth = True, []
            for i, (x, y) in enumerate(zip(a.a[1], b.a[1])):
                if x == y:
                    pth.append(x)
                elif x[0] == y[0] == "r":
                    lo = self.joinval(x[1], y[1], key + ("rl", i))
                    hi = self.joinval(x[2], y[2], key + ("rh", i))
                    pth.append(("r", lo, hi))
                elif x[0] == y[0] == "i":
                    pth.append(("i", self.joinval(x[1], y[1], key + ("ri", i))))
                else:
                    ok = False
            if ok:
                ma, mb = a.a[2], b.a[2]
                m = ma if ma is mb else (sub(pth[-1][2], pth[-1][1]) if pth and pth[-1][0] == "r" else (self.joinval(ma, mb, key + ("m",)) if ma is not None and mb is not None else None))
                return mk("ref", a.a[0], tuple(pth), m, a.a[3] or b.a[3])
        p = mk("phi", key[0], key[1:])
        d = self.phis.setdefault(p, {})
        d[a] = 1
        d[b] = 1
        return p

    def join(self, states, tag):
        s = states[0].copy()
        for o in states[1:]:
            s = self.join2(s, o, tag)
        return s

    def subst(self, t, mp, memo, d=0):
        r = mp.get(t)
        if r is not None:
            return r
        r = memo.get(t)
        if r is not None:
            return r
        if isinstance(t, tuple):
            return tuple(self.subst(x, mp, memo, d + 1) if isinstance(x, (T, tuple)) else x for x in t)
        if d > 60 or not t.a:
            return t
        na = tuple(self.subst(x, mp, memo, d + 1) if isinstance(x, (T, tuple)) else x for x in t.a)
        r = t
        if na != t.a:
            r = mk(t.op, *na)
        memo[t] = r
        return r

    def join2(self, a, b, tag):
        s = self.join2_(a, b, tag)
        if tag[0] in ("J", "R"):
            ma, mb = {}, {}
            for o, v in s.mem.items():
                self.phimap(self.content(a, o), self.content(b, o), v, ma, mb)
            ra = [t for t in a.facts if t not in s.facts]
            rb = [t for t in b.facts if t not in s.facts]
            if ma and ra and rb and len(ra) < 60 and len(rb) < 60:
                me = {}
                fa = {}
                for t in ra:
                    u = self.subst(t, ma, me)
                    fa[u] = a.facts[t]
                me = {}
                for t in rb:
                    u = self.subst(t, mb, me)
                    if fa.get(u) is b.facts[t]:
                        s.facts.setdefault(u, b.facts[t])
            self.unify_facts(a, b, s, tag)
        return s

    def unify_facts(self, a, b, s, tag):
        """facts of the same form on both sides survive as a fact about the phi of their operands"""
        def groups(d):
            g = {}
            for t, v in d.items():
                if t in s.facts:
                    continue
                if t.op == "call":
                    g.setdefault((t.a[0], t.a[1] if isinstance(t.a[1], str) else None, len(t.a[2]), v), []).append(t)
                elif t.op in ("seqeq", "eq", "lt"):
                    g.setdefault((t.op, None, 2, v), []).append(t)
            return g
        ga, gb = groups(a.facts), groups(b.facts)
        for k, la in ga.items():
            lb = gb.get(k)
            if not lb or len(la) > 14 or len(lb) > 14:
                continue
            # pair from the most recent: those come from the same program points
            for i, (x, y) in enumerate(zip(reversed(la), reversed(lb))):
                if x is y:
                    continue
                xa, ya = (x.a[2], y.a[2]) if x.op == "call" else (x.a, y.a)
                na = tuple(self.joinarg(p, q, (tag, ("F", k[0], i), n)) for n, (p, q) in enumerate(zip(xa, ya)))
                u = mk("call", x.a[0], x.a[1] if x.a[1] is y.a[1] or isinstance(x.a[1], str) else None, na) if x.op == "call" else mk(x.op, *na)
                s.facts.setdefault(u, k[3])

    def joinarg(self, p, q, key):
        if p is q:
            return p
        if p.op == "at" and q.op == "at":
            return mk("at", self.joinarg(p.a[0], q.a[0], key))
        return self.joinval(p, q, key)

    def phimap(self, x, y, v, ma, mb):
        if x is y or v is x or v is y:
            return
        if v.op == "phi":
            if x.op not in ("int", "phi", "agg", "rep", "undef") or x.op == "agg" and x.a[0] == "array":
                ma[x] = v
            if y.op not in ("int", "phi", "agg", "rep", "undef") or y.op == "agg" and y.a[0] == "array":
                mb[y] = v
        elif v.op == "agg" and x.op == "agg" and y.op == "agg" and len(v.a) == len(x.a) == len(y.a):
            for i in range(2, len(v.a)):
                self.phimap(x.a[i], y.a[i], v.a[i], ma, mb)

    def join2_(self, a, b, tag):
        s = State()
        for o in a.mem.keys() | b.mem.keys():
            if o[0] == "L" and (o not in a.mem or o not in b.mem):
                continue  # not live on both
            x, y = self.content(a, o), self.content(b, o)
            s.mem[o] = x if x is y else self.joinval(x, y, (tag, o))
        for t, v in a.facts.items():
            w = b.facts.get(t)
            if w is v:
                s.facts[t] = v
            elif w is not None:
                pass
        for t, v in a.facts.items():
            if t in s.facts:
                continue
            # a.t == v, b: t != something?  keep exclusions implied on both sides
            w = b.ne.get(t)
            if w and isint(v):
                ex = frozenset(x for x in w if x != v.a[0])
                if ex:
                    s.ne[t] = ex
        for t, v in b.facts.items():
            if t in s.facts:
                continue
            w = a.ne.get(t)
            if w and isint(v):
                ex = frozenset(x for x in w if x != v.a[0])
                if ex:
                    s.ne[t] = ex
        for t, v in a.ne.items():
            w = b.ne.get(t)
            if w:
                ex = v & w
                if ex:
                    s.ne[t] = ex
        for e in a.ev:
            if e in b.ev:
                s.ev[e] = a.ev[e]
        return s

    def shape(self, t, d=3):
        if t.op == "agg":
            if d and len(t.a) < 8:
                return (t.a[0], t.a[1]) + tuple(self.shape(x, d - 1) for x in t.a[2:])
            return (t.a[0], t.a[1])
        if t.op == "int":
            return t.a[0]
        if t.op in ("ref", "fn"):
            return t
        return None

    # ------------------------------------------------------------ running
    def run_fn(self, fr, st):
        return self.run_region(fr, None, 0, [st])[2]

    def run_region(self, fr, region, start, states):
        """returns (back states to start, [(exit block, state)], outcomes)"""
        import heapq
        cfg = fr.cfg
        pend = {start: list(states)}
        heap = [cfg.rpo[start]]
        first = True
        back, exits, outs = [], [], []
        while heap:
            r = heapq.heappop(heap)
            b = cfg.order[r]
            sts = pend.pop(b, None)
            if not sts:
                continue
            if len(sts) > self.K:
                sts = self.compress(fr, sts, b)
            loop = cfg.loops.get(b) if not (b == start and first and region is not None) else None
            succs = []
            if loop is not None and not (region is not None and b == start):
                for s in sts:
                    ex, ou = self.run_loop(fr, b, loop, s)
                    outs.extend(ou)
                    succs.extend(ex)
            else:
                for s in sts:
                    su, ou = self.step_block(fr, b, s)
                    outs.extend(ou)
                    succs.extend(su)
            first = False
            for nb, s in succs:
                if region is not None and nb == start:
                    if self.on_back:
                        self.on_back(s)
                    back.append(s)
                elif region is not None and nb not in region:
                    exits.append((nb, s))
                else:
                    if nb not in pend:
                        pend[nb] = []
                        heapq.heappush(heap, cfg.rpo[nb])
                    pend[nb].append(s)
        return back, exits, outs

    def compress(self, fr, sts, b):
        groups = {}
        for s in sts:
            key = []
            for i in range(len(fr.body["locals"])):
                v = s.mem.get(("L", fr.uid, i))
                if v is not None:
                    key.append((i, self.shape(v, 2)))
            groups.setdefault(tuple(key), []).append(s)
        if len(groups) > self.K:
            g2 = {}
            for k, v in groups.items():
                kk = tuple(x for x in k if x[0] == 0)
                g2.setdefault(kk, []).extend(v)
            groups = g2
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
            else:
                self.uid += 1
                out.append(self.join(g, ("J", fr.uid, b, self.uid)))
        return out

    def run_loop(self, fr, h, loop, st):
        self.uid += 1
        tag = ("W", fr.uid, h, self.uid)
        r = self.peel(fr, h, loop, st)
        if r is not None:
            return r
        cur = st.copy()
        for it in range(12):
            back, exits, outs = self.run_region(fr, loop, h, [cur.copy()])
            if not back:
                return exits, outs
            new = cur
            for b in back:
                new = self.join2(new, b, tag)
            if self.same(new, cur):
                self.forall(cur, back, exits, tag)
                return exits, outs
            cur = new
        # force: havoc everything still changing
        return exits, outs

    def forall(self, base, back, exits, tag=None):
        """what held of the element on every completed iteration holds of all elements once the iterator is exhausted
        (or the counter reached its bound): recorded as forall(fact, value) over the itidx / counter phi in it"""
        for t in self.step_facts(base, back, tag):
            for s in exits:
                x = s[1] if isinstance(s, tuple) else s
                x.ev[t] = 1

    def step_facts(self, base, back, tag=None):
        r = []
        for t, v in back[0].facts.items():
            if base.facts.get(t) is v or any(b.facts.get(t) is not v for b in back[1:]):
                continue
            for x in subterms(t):
                if x.op == "itidx" or tag is not None and x.op == "phi" and x.a[0] == tag:
                    r.append(mk("forall", t, v))
                    break
        return r

    def counters(self, fr, s):
        r = []
        for i in range(len(fr.body["locals"])):
            v = s.mem.get(("L", fr.uid, i))
            if v is not None and v.op == "agg" and (v.a[0] == "it:list" or str(v.a[0]).endswith("ops::range::Range")):
                r.append((i, v))
        return r

    def peel(self, fr, h, loop, st):
        """loops whose trip count is known and small are unrolled; None if not such a loop"""
        cur = [st.copy()]
        ex, ou = [], []
        for it in range(self.unroll + 2):
            before = [self.counters(fr, s) for s in cur]
            for c in before:
                for _, v in c:
                    if v.a[0] != "it:list" and isint(v.a[2]) and isint(v.a[3]) and v.a[3].a[0] - v.a[2].a[0] > self.unroll:
                        return None
            back, exits, outs = self.run_region(fr, loop, h, cur)
            ex += exits
            ou += outs
            if not back:
                return ex, ou
            if exits:
                # undecided exit: only worth going on when a known sequence is being consumed
                a = {x for c in before for x in c}
                b = {x for s in back for x in self.counters(fr, s)}
                if not any(v.a[0] == "it:list" or isint(v.a[2]) and isint(v.a[3]) for _, v in b - a):
                    return None
            if len(back) > 8 or len(ex) > 24:
                return None
            cur = back
        return None

    def same(self, a, b):
        if len(a.facts) != len(b.facts) or len(a.ev) != len(b.ev) or len(a.mem) != len(b.mem):
            return False
        for k, v in a.mem.items():
            if b.mem.get(k) is not v:
                return False
        return a.facts.keys() == b.facts.keys() and a.ne == b.ne

    def step_block(self, fr, b, st):
        self.sites += 1
        if self.sites > self.budget:
            raise Imprecise("analysis budget exceeded in " + fr.key)
        bl = fr.body["blocks"][b]
        for s in bl["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fr, s[2], None)
                o, p, m = self.place(st, fr, s[1])
                self.store(st, o, p, v)
            elif k == "dead":
                st.mem.pop(("L", fr.uid, s[1]), None)
            elif k == "sd":
                o, p, m = self.place(st, fr, s[1])
                t = self.tyof_place(fr, s[1])
                nm = self.types[t].get("path", "?") if t is not None else "?"
                self.store(st, o, p, mk("agg", nm, s[2]))
        t = bl["t"]
        k = t["k"]
        if k == "goto":
            return [(t["t"], st)], []
        if k == "return":
            return [], [Outcome(st, self.load(st, ("L", fr.uid, 0), ()), "return", (fr.fn.get("file"), t.get("line")))]
        if k in ("unreachable", "resume", "other"):
            return [], []
        if k == "switch":
            d = self.ev(st, self.operand(st, fr, t["d"]))
            return self.branch(fr, st, d, t["vals"], t["else"], t), []
        if k == "assert":
            d = self.ev(st, self.operand(st, fr, t["cond"]))
            if not self.assume(st, d, 1 if t["exp"] else 0):
                return [], []
            return [(t["t"], st)], []
        if k == "drop":
            return self.do_drop(fr, st, t), []
        if k == "asm":
            self.do_asm(fr, st, t)
            return [(x, st) for x in t["ts"]], []
        if k == "call":
            return self.do_call(fr, st, t)
        raise Imprecise("terminator " + k)

    def branch(self, fr, st, d, vals, els, t):
        if isint(d):
            v = d.a[0]
            for x, b in vals:
                if x == v or (v < 0 and (v & ((1 << 128) - 1)) == x) or (v < 0 and any(x == v & ((1 << w) - 1) for w in (8, 16, 32, 64))):
                    return [(b, st)]
            return [(els, st)]
        if d.op == "ite":
            res = []
            s1, s2 = st.copy(), st
            if self.assume(s1, d.a[0], 1):
                res += self.branch(fr, s1, self.ev(s1, d.a[1]), vals, els, t)
            if self.assume(s2, d.a[0], 0):
                res += self.branch(fr, s2, self.ev(s2, d.a[2]), vals, els, t)
            return res
        res = []
        for x, b in vals:
            s = st.copy()
            if self.assume(s, d, x):
                res.append((b, s))
        s = st
        ok = True
        isbool = self.types[t["ty"]]["k"] == "bool"
        for x, b in vals:
            if not (self.assume(s, d, 1 - x) if isbool else self.assume_ne(s, d, x)):
                ok = False
                break
        if ok:
            dead = fr.body["blocks"][els]["t"]["k"] == "unreachable" and not fr.body["blocks"][els]["s"]
            if not dead and d.op == "disc":
                pass
            if not dead:
                res.append((els, s))
        return res

    def do_drop(self, fr, st, t):
        o, p, m = self.place(st, fr, t["place"])
        ty = self.types[t["ty"]]
        if ty.get("needs_drop", True):
            v = self.load(st, o, p)
            st.ev[mk("drop", ty["s"], v)] = t.get("line")
            h = getattr(self, "on_drop", None)
            if h:
                h(fr, st, ty, ref(o, p, None, True))
        return [(t["t"], st)]

    def do_asm(self, fr, st, t):
        ins = []
        for op in t["ops"]:
            if op["k"] in ("in", "inout"):
                ins.append(self.operand(st, fr, op["v"]))
        call = mk("call", "asm", mk("sym", "asm@%s:%s" % (fr.key, t.get("line"))), tuple(self.view(st, x) for x in ins))
        st.ev[call] = (fr.key, t.get("line"))
        for i, x in enumerate(ins):
            self.havoc(st, x, call, i)
        j = 0
        for op in t["ops"]:
            if op["k"] in ("out", "inout") and op.get("p"):
                o, p, m = self.place(st, fr, op["p"])
                self.store(st, o, p, mk("prj", call, ("f", j)))
                j += 1

    # ------------------------------------------------------------ calls
    def view(self, st, t, d=4):
        """replace pointers by what they point to (contents at the time of the call)"""
        if t.op == "ref":
            if d == 0:
                return t
            c = self.load(st, t.a[0], t.a[1])
            return mk("at", self.view(st, c, d - 1))
        if t.op == "agg":
            return mk("agg", t.a[0], t.a[1], *[self.view(st, x, d - 1) if isinstance(x, T) else x for x in t.a[2:]]) if d else t
        if t.op in ("int", "bytes", "fn", "upd"):
            return t
        o = ("S", t)
        if o in st.mem:
            return mk("at", st.mem[o])
        return t

    def havoc(self, st, t, call, i, tag=None, d=4, mutonly=True):
        """the callee may write through every mutable pointer in t"""
        if d == 0:
            return
        if t.op == "ref":
            if t.a[3]:
                self.store(st, t.a[0], t.a[1], mk("out", call, i))
            return
        if t.op == "agg":
            for j, x in enumerate(t.a[2:]):
                self.havoc(st, x, call, (i, j), d=d - 1)

    def do_call(self, fr, st, t):
        f = self.operand(st, fr, t["f"]) if t["f"][0] != "k" else self.const(st, t["f"][1])
        args = [self.operand(st, fr, a) for a in t["args"]]
        argty = [self.tyof_op(fr, a) for a in t["args"]]
        if f.op == "fn":
            callee = self.callreg.get(f.a[0], {"path": f.a[0], "key": f.a[0]})
        else:
            r = self.M.call_fn(self, fr, st, f, agg("tuple", 0, *args), t) if f.op == "agg" else None
            if r is not None:
                return self.called_to(fr, t, r), []
            callee = {"path": "<indirect>", "key": "<indirect>"}
            args = [f] + args
            argty = [None] + argty
        res, outs = self.call(fr, st, callee, args, argty, t)
        return self.called_to(fr, t, res), outs

    def called_to(self, fr, t, res):
        nxt = []
        if t["t"] is not None:
            for s, r in res:
                o, p, m = self.place(s, fr, t["dest"])
                self.store(s, o, p, r)
                nxt.append((t["t"], s))
        return nxt

    def call(self, fr, st, callee, args, argty, t):
        """-> ([(state, ret)], outcomes)"""
        key, path = callee["key"], callee.get("rpath") or callee["path"]
        line = t.get("line") if t else None
        for pat, h in self.models.items():
            if pat(key, path) if callable(pat) else re.search(pat, path):
                r = h(self, fr, st, callee, args, argty, t)
                if r is not None:
                    return r, []
        r = self.M.model(self, fr, st, callee, args, argty, t)
        if r is not None:
            return r, []
        f = self.fns.get(key)
        if f is None and callee.get("poly"):
            f = self.fns.get(path)
        if f and f.get("body") and not self.opaque(key, f["path"]) and fr.depth < self.maxdepth and not self.in_stack(fr, key):
            return self.inline(fr, st, key, f, args, line), []
        return [(st, self.opaque_call(fr, st, callee, args, argty, t))], []

    stack = ()

    def in_stack(self, fr, key):
        return key in self.stack

    def inline(self, fr, st, key, f, args, line=None):
        body = f["body"]
        nf = Frame()
        self.uid += 1
        nf.uid = self.uid
        nf.key = key
        nf.body = body
        nf.fn = f
        nf.depth = fr.depth + 1 if fr else 0
        nf.cfg = self.cfg(key, body)
        self.inlined[key] = self.inlined.get(key, 0) + 1
        self.analysed.add(key)
        if "{closure" in f["path"].rsplit("::", 1)[-1] and len(args) == 2 and body["argc"] != 2 and args[1].op == "agg":
            args = [args[0]] + list(args[1].a[2:])
        elif "{closure" in f["path"].rsplit("::", 1)[-1] and len(args) == 2 and args[1].op == "agg" and args[1].a[0] in ("tuple", "()"):
            args = [args[0]] + list(args[1].a[2:])
        # closure bodies taking &self called with the closure by value
        if "{closure" in f["path"].rsplit("::", 1)[-1] and args and args[0].op == "agg" and self.types[body["locals"][1][0]]["k"] == "ref":
            o = ("L", nf.uid, "self")
            st.mem[o] = args[0]
            args = [ref(o, (), None, True)] + list(args[1:])
        for i, a in enumerate(args):
            st.mem[("L", nf.uid, i + 1)] = a
        save = self.stack
        self.stack = save + (key,)
        outs = self.run_fn(nf, st)
        self.stack = save
        res = []
        for o in outs:
            if o.kind == "return":
                for k in [k for k in o.st.mem if k[0] == "L" and k[1] == nf.uid]:
                    del o.st.mem[k]
                res.append((o.st, o.ret))
        eager = self.eager and self.is_data(body["locals"][0][0])
        if len(res) > 4 or eager and len(res) > 1:
            groups = {}
            for s, r in res:
                groups.setdefault(self.shape(r), []).append((s, r))
            res2 = []
            for g in groups.values():
                if len(g) == 1 or (len(res) <= self.K // 2 and not eager):
                    res2.extend(g)
                else:
                    tmp = ("L", nf.uid, "ret")
                    for s, r in g:
                        s.mem[tmp] = r
                    self.uid += 1
                    s = self.join([s for s, r in g], ("R", nf.uid, self.uid))
                    res2.append((s, s.mem.pop(tmp)))
            res = res2
        return res

    def is_data(self, ty):
        """a type whose value carries no outcome (not bool / Option / Result / enum / unit): paths are joined on return"""
        t = self.types[ty]
        if t["k"] == "adt":
            a = self.c.adts.get(t.get("path"))
            if a is not None:
                return len(a["variants"]) == 1
            return not re.search(r"(Option|Result|Ordering|ControlFlow|Poll|Cow)$", t.get("path", ""))
        return t["k"] == "array"

    def opaque_call(self, fr, st, callee, args, argty, t, name=None):
        key = callee["key"]
        path = callee.get("rpath") or callee["path"]
        self.seen_opaque[path] = self.seen_opaque.get(path, 0) + 1
        views = tuple(self.view(st, a) for a in args)
        site = None
        if callee.get("virtual") or re.search(r"RandomSource|getrandom", path):
            site = (fr.key, t.get("line") if t else None)
            self.uid += 1
            site = mk("sym", "%s@%s#%d" % (short(path), site, self.uid))
        # functions of one path but different instances (trait methods, generics) are different functions
        call = mk("call", name or path, site if site is not None else key, views)
        if call in st.ev and FRESH.search(path):
            self.uid += 1
            call = mk("call", name or path, mk("sym", "%s@again#%d" % (short(path), self.uid)), views)
        self.callinfo[call] = (fr.key, t.get("line") if t else None, key)
        st.ev[call] = (fr.key, t.get("line") if t else None)
        for i, a in enumerate(args):
            ty = self.types[argty[i]] if i < len(argty) and argty[i] is not None else None
            if a.op == "ref":
                if a.a[3] and (ty is None or ty["k"] not in ("ref",) or ty.get("mut")):
                    self.store(st, a.a[0], a.a[1], mk("out", call, i))
            elif a.op == "agg":
                self.havoc(st, a, call, i)
            elif ty is not None and ty["k"] in ("ref", "ptr") and ty.get("mut"):
                st.mem[("S", a)] = mk("out", call, i)
        if t is not None and t["t"] is None:
            return UNDEF
        return call

    # ------------------------------------------------------------ entry
    def entry(self, key, args=None, setup=None):
        """analyse function `key` with symbolic arguments; returns (outcomes, args)"""
        f = self.fns[key]
        body = f["body"]
        st = State()
        av = []
        for i in range(1, body["argc"] + 1):
            nm = body["locals"][i][1] or "arg%d" % i
            ty = self.types[body["locals"][i][0]]
            v = args[i - 1] if args and i - 1 < len(args) and args[i - 1] is not None else self.symarg(nm, ty, st)
            av.append(v)
        if setup:
            setup(st, av)
        self.uid += 1
        fr = Frame()
        fr.uid, fr.key, fr.body, fr.fn, fr.depth, fr.cfg = self.uid, key, body, f, 0, self.cfg(key, body)
        self.analysed.add(key)
        self.stack = (key,)
        for i, a in enumerate(av):
            st.mem[("L", fr.uid, i + 1)] = a
        outs = self.run_fn(fr, st)
        return outs, av

    def symarg(self, nm, ty, st):
        t = mk("sym", nm)
        if ty["k"] == "ref":
            e = self.types[ty["e"]]
            m = None
            if e["k"] == "array" and e.get("n") is not None:
                m = I(e["n"])
            elif e["k"] in ("slice", "str"):
                m = mk("len", t)
            return ref(("S", t), (), m, ty.get("mut"))
        return t
