"""Models of the core/alloc functions the code uses (by resolved path).  Each returns [(state, return term)] or None."""
import re
from .engine import *

OPT = "core::option::Option"
RES = "core::result::Result"


def some(x):
    return agg(OPT, 1, x)


NONE = agg(OPT, 0)

_tbl = []
_cache = {}


def m(pat):
    r = re.compile(pat)

    def d(f):
        _tbl.append((r, f))
        return f
    return d


def find(path):
    h = _cache.get(path)
    if h is None:
        h = False
        for r, f in _tbl:
            if r.search(path):
                h = f
                break
        _cache[path] = h
    return h


def model(E, fr, st, callee, args, argty, t):
    path = callee.get("rpath") or callee["path"]
    E.site = id(t)
    if t is not None and t["t"] is None:
        # diverging: panics etc.
        if path.startswith("core::panicking") or "panic" in path or "unwrap_failed" in path or "expect_failed" in path or callee.get("local") is False:
            E.panics.append((fr.key, t.get("line"), path))
            return []
    h = find(path)
    if not h and callee.get("path") != path:
        h = find(callee["path"])
    if h:
        return h(E, fr, st, callee, args, argty, t)
    if callee.get("ctor"):
        return ctor(E, fr, st, callee, args, argty, t)
    return None


def ctor(E, fr, st, callee, args, argty, t):
    # enum/struct constructor used as a function
    p = callee["path"]
    parent, name = p.rsplit("::", 1)
    parent = re.sub(r"::<.*>$", "", parent)
    a = E.c.adts.get(parent)
    if a:
        for i, v in enumerate(a["variants"]):
            if v["name"] == name:
                return [(st, agg(parent, i, *args))]
    a = E.c.adts.get(p)
    if a:
        return [(st, agg(p, 0, *args))]
    known = {"Some": (OPT, 1), "Ok": (RES, 0), "Err": (RES, 1)}
    if name in known:
        return [(st, agg(known[name][0], known[name][1], *args))]
    return [(st, agg(p, 0, *args))]


def fork(st, E, cond, a, b):
    """two-way split on boolean term"""
    c = E.ev(st, cond)
    if isint(c):
        return [(st, 1)] if c.a[0] else [(st, 0)]
    s1, s2 = st.copy(), st
    r = []
    if E.assume(s1, c, 1):
        r.append((s1, 1))
    if E.assume(s2, c, 0):
        r.append((s2, 0))
    return r


# ---------------------------------------------------------------- slices
@m(r"^core::slice::<impl \[T\]>::len$|^core::str::<impl str>::len$")
def _len(E, fr, st, c, a, ty, t):
    return [(st, E.len_of(a[0]))]


@m(r"^core::slice::<impl \[T\]>::is_empty$")
def _is_empty(E, fr, st, c, a, ty, t):
    return [(st, b_eq(E.len_of(a[0]), I(0)))]


def range_of(E, st, r, ln, self_ty=None):
    """(lo, hi) of a range value, or None if it is an index"""
    if r.op == "agg":
        n = r.a[0].rsplit("::", 1)[-1]
        if n == "Range":
            return r.a[2], r.a[3]
        if n == "RangeTo":
            return I(0), r.a[2]
        if n == "RangeFrom":
            return r.a[2], ln
        if n == "RangeFull":
            return I(0), ln
        if n == "RangeInclusive":
            return r.a[2], add(r.a[3], I(1))
        if n == "RangeToInclusive":
            return I(0), add(r.a[2], I(1))
    return None


def range_kind(E, callee):
    k = callee.get("key", "")
    for n in ("RangeInclusive", "RangeToInclusive", "RangeFrom", "RangeTo", "RangeFull", "Range"):
        if "ops::range::%s<" % n in k or "ops::range::%s>" % n in k or "ops::range::%s " % n in k:
            return n
    return None


def as_range(E, st, callee, r, ln):
    x = range_of(E, st, r, ln)
    if x:
        return x
    n = range_kind(E, callee)
    if n == "RangeFull":
        return I(0), ln
    if n == "Range":
        return project(r, ("f", 0)), project(r, ("f", 1))
    if n == "RangeTo":
        return I(0), project(r, ("f", 0))
    if n == "RangeFrom":
        return project(r, ("f", 0)), ln
    return None


@m(r"Index<I> for \[T\]>::index$|IndexMut<I> for \[T\]>::index_mut$|Index<I> for \[T; N\]>::index$|IndexMut<I> for \[T; N\]>::index_mut$")
def _index(E, fr, st, c, a, ty, t):
    p = a[0]
    ln = E.len_of(p)
    if p.op == "ref" and p.a[2] is None:
        tt = E.types[ty[0]] if ty and ty[0] is not None else None
        if tt and tt["k"] == "ref":
            e = E.types[tt["e"]]
            if e["k"] == "array" and e.get("n") is not None:
                ln = I(e["n"])
                p = ref(p.a[0], p.a[1], ln, p.a[3])
    r = as_range(E, st, c, E_ev(E, st, a[1]), ln)
    if r is None:
        o, pa, _ = E.deref(p)
        if not E.assume(st, b_lt(a[1], ln), 1):
            return []
        return [(st, ref(o, extend(pa, ("i", a[1])), None, p.a[3] if p.op == "ref" else True))]
    lo, hi = E.ev(st, r[0]), E.ev(st, r[1])
    if not (isint(lo) and lo.a[0] == 0):
        if not E.assume(st, b_lt(hi, lo), 0):
            return []
    if hi is not ln:
        if not E.assume(st, b_lt(ln, hi), 0):
            return []
    return [(st, E.slice_ref(p, lo, hi))]


def E_ev(E, st, t):
    return t


@m(r"^core::slice::<impl \[T\]>::get(_mut)?$")
def _get(E, fr, st, c, a, ty, t):
    p = a[0]
    ln = E.len_of(p)
    r = as_range(E, st, c, a[1], ln)
    o, pa, _ = E.deref(p)
    mut = p.a[3] if p.op == "ref" else True
    if r is None:
        res = []
        for s, v in fork(st, E, b_lt(a[1], ln), 1, 0):
            res.append((s, some(ref(o, extend(pa, ("i", a[1])), None, mut)) if v else NONE))
        return res
    lo, hi = E.ev(st, r[0]), E.ev(st, r[1])
    cond = TRUE
    if not (isint(lo) and lo.a[0] == 0):
        cond = b_and(cond, b_not(b_lt(hi, lo)))
    if hi is not ln:
        cond = b_and(cond, b_not(b_lt(ln, hi)))
    return [(s, some(E.slice_ref(p, lo, hi)) if v else NONE) for s, v in fork(st, E, cond, 1, 0)]


@m(r"^core::slice::<impl \[T\]>::split_at(_mut)?$")
def _split_at(E, fr, st, c, a, ty, t):
    p = a[0]
    ln = E.len_of(p)
    k = E.ev(st, a[1])
    if not E.assume(st, b_lt(ln, k), 0):
        return []
    return [(st, agg("tuple", 0, E.slice_ref(p, I(0), k), E.slice_ref(p, k, ln)))]


@m(r"^core::slice::<impl \[T\]>::split_at(_mut)?_checked$")
def _split_at_checked(E, fr, st, c, a, ty, t):
    p = a[0]
    ln = E.len_of(p)
    k = E.ev(st, a[1])
    return [(s, some(agg("tuple", 0, E.slice_ref(p, I(0), k), E.slice_ref(p, k, ln))) if v else NONE) for s, v in fork(st, E, b_not(b_lt(ln, k)), 1, 0)]


def elemref(E, p, i):
    o, pa, _ = E.deref(p)
    return ref(o, extend(pa, ("i", i)), None, p.a[3] if p.op == "ref" else True)


@m(r"^core::slice::<impl \[T\]>::(first|last)(_mut)?$")
def _first(E, fr, st, c, a, ty, t):
    p = a[0]
    ln = E.len_of(p)
    i = I(0) if "first" in c["path"].rsplit("::", 1)[-1] else sub(ln, I(1))
    return [(s, NONE if v else some(elemref(E, p, i))) for s, v in fork(st, E, b_eq(ln, I(0)), 1, 0)]


@m(r"^core::slice::<impl \[T\]>::split_(first|last)(_mut)?$")
def _split_first(E, fr, st, c, a, ty, t):
    p = a[0]
    ln = E.len_of(p)
    fst = "split_first" in (c.get("rpath") or c["path"])
    res = []
    for s, v in fork(st, E, b_eq(ln, I(0)), 1, 0):
        if v:
            res.append((s, NONE))
        elif fst:
            res.append((s, some(agg("tuple", 0, elemref(E, p, I(0)), E.slice_ref(p, I(1), ln)))))
        else:
            res.append((s, some(agg("tuple", 0, elemref(E, p, sub(ln, I(1))), E.slice_ref(p, I(0), sub(ln, I(1)))))))
    return res


@m(r"^core::slice::<impl \[T\]>::split_(first|last)_chunk(_mut)?$|^core::slice::<impl \[T\]>::(first|last)_chunk(_mut)?$")
def _split_chunk(E, fr, st, c, a, ty, t):
    n = [x[0] for x in c.get("targs", []) if isinstance(x, list)]
    if not n:
        return None
    n = I(n[0])
    p = a[0]
    ln = E.len_of(p)
    nm = (c.get("rpath") or c["path"]).rsplit("::", 1)[-1]
    res = []
    for s, v in fork(st, E, b_lt(ln, n), 1, 0):
        if v:
            res.append((s, NONE))
            continue
        if "first" in nm:
            h, r = E.slice_ref(p, I(0), n), E.slice_ref(p, n, ln)
            res.append((s, some(h if nm.startswith("first") else agg("tuple", 0, h, r))))
        else:
            h, r = E.slice_ref(p, sub(ln, n), ln), E.slice_ref(p, I(0), sub(ln, n))
            res.append((s, some(h if nm.startswith("last") else agg("tuple", 0, r, h))))
    return res


@m(r"^core::slice::<impl \[T\]>::(copy|clone)_from_slice$")
def _copy(E, fr, st, c, a, ty, t):
    if not E.assume(st, b_eq(E.len_of(a[0]), E.len_of(a[1])), 1):
        return []
    E.wr(st, a[0], E.rd(st, a[1]))
    return [(st, UNIT)]


@m(r"^core::slice::<impl \[T\]>::fill$")
def _fill(E, fr, st, c, a, ty, t):
    E.wr(st, a[0], mk("rep", a[1], E.len_of(a[0])))
    return [(st, UNIT)]


@m(r"^core::slice::<impl \[T\]>::as_(mut_)?ptr(_range)?$|^core::slice::<impl \[T\]>::as_(mut_)?slice$|::as_slice$|::as_mut_slice$")
def _asptr(E, fr, st, c, a, ty, t):
    p = c.get("rpath") or c["path"]
    if "vec::Vec" in p:
        return _vecderef(E, fr, st, c, a, ty, t)
    return [(st, arrmeta(E, a[0], ty))]


def arrmeta(E, p, ty):
    tt = E.types[ty[0]] if ty and ty[0] is not None else None
    if tt and tt["k"] == "ref":
        e = E.types[tt["e"]]
        if e["k"] == "array" and e.get("n") is not None:
            o, pa, _ = E.deref(p)
            return ref(o, pa, I(e["n"]), p.a[3] if p.op == "ref" else tt.get("mut"))
    return p


@m(r"AsRef<\[T\]> for \[T(; N)?\]>::as_ref$|AsMut<\[T\]> for \[T(; N)?\]>::as_mut$|Borrow<\[T\]> for \[T; N\]>|AsRef<U> for &T>::as_ref$|^core::array::<impl \[T; N\]>::as_(mut_)?slice$|AsMut<U> for &mut T>::as_mut$")
def _asref(E, fr, st, c, a, ty, t):
    p = a[0]
    path = c.get("rpath") or c["path"]
    if "for &T" in path or "for &mut T" in path:
        # &&T: as_ref of the inner type; only slices/arrays are handled
        inner = E.rd(st, p)
        tt = E.types[ty[0]] if ty and ty[0] is not None else None
        if tt and tt["k"] == "ref":
            it = E.types[tt["e"]]
            if it["k"] == "ref" and E.types[it["e"]]["k"] in ("array", "slice"):
                return [(st, arrmeta(E, inner, [tt["e"]]))]
        return None
    return [(st, arrmeta(E, p, ty))]


@m(r"^alloc::vec::Vec::<T, A>::len$")
def _veclen(E, fr, st, c, a, ty, t):
    return [(st, mk("len", E.rd(st, a[0])))]


@m(r"^<alloc::vec::Vec<T, A> as core::ops::deref::Deref(Mut)?>::deref(_mut)?$|^alloc::vec::Vec::<T, A>::as_(mut_)?(slice|ptr)$|^<alloc::vec::Vec<T, A> as core::convert::As(Ref|Mut)<\[T\]>>::as_(ref|mut)$")
def _vecderef(E, fr, st, c, a, ty, t):
    o, pa, _ = E.deref(a[0])
    return [(st, ref(o, pa + (("f", "vec"),), mk("len", E.rd(st, a[0])), a[0].a[3] if a[0].op == "ref" else True))]


@m(r"^<alloc::rcs::arc::Arc<T, A> as core::ops::deref::Deref>::deref$|^<alloc::boxed::Box<T, A> as core::ops::deref::Deref(Mut)?>::deref")
def _arcderef(E, fr, st, c, a, ty, t):
    o, pa, _ = E.deref(a[0])
    return [(st, ref(o, pa + (("f", "ptr"),), None, a[0].a[3] if a[0].op == "ref" else False))]


@m(r"^alloc::rcs::arc::Arc::<T>::new$|^alloc::boxed::Box::<T>::new$")
def _arcnew(E, fr, st, c, a, ty, t):
    return [(st, mk("upd", mk("sym", "box"), ("f", "ptr"), a[0]))]


@m(r"^<alloc::rcs::arc::Arc<T, A> as core::clone::Clone>::clone$|^core::clone::impls::|^core::array::<impl core::clone::Clone for \[T; N\]>::clone$|^<core::marker::PhantomData<T> as core::clone::Clone>::clone")
def _clone(E, fr, st, c, a, ty, t):
    return [(st, E.rd(st, a[0]))]


@m(r"^<alloc::vec::Vec<T, A> as core::clone::Clone>::clone$")
def _vclone(E, fr, st, c, a, ty, t):
    return [(st, E.rd(st, a[0]))]


@m(r"^alloc::slice::<impl \[T\]>::to_vec$|^alloc::slice::<impl alloc::borrow::ToOwned for \[T\]>::to_owned|^<alloc::vec::Vec<T> as core::convert::From<&\[T(; N)?\]>>::from|^<alloc::vec::Vec<T> as core::convert::From<\[T; N\]>>::from")
def _tovec(E, fr, st, c, a, ty, t):
    tt = E.types[ty[0]] if ty and ty[0] is not None else None
    if tt and tt["k"] == "array":
        return [(st, mk("upd", mk("sym", "vec"), ("f", "vec"), a[0]))]
    return [(st, mk("upd", mk("sym", "vec"), ("f", "vec"), E.rd(st, a[0])))]


@m(r"^core::hint::black_box$|^core::hint::must_use$|IntoIterator>::into_iter$|^core::iter::traits::iterator::Iterator::by_ref$|^core::intrinsics::(un)?likely$|^<T as core::convert::Into<U>>::into$NOPE")
def _id(E, fr, st, c, a, ty, t):
    p = c.get("rpath") or c["path"]
    if p.endswith("into_iter"):
        if p.startswith("<I as"):
            return [(st, a[0])]
        if "for &'a [T]" in p or "for &'a mut [T]" in p or "for &'a [T; N]" in p or "for &'a mut [T; N]" in p:
            return [(st, mkiter(E, st, "iter", arrmeta(E, a[0], ty)))]
        if "for [T; N]" in p:
            return None
        return None
    return [(st, a[0])]


@m(r"IntoIterator for &'a (mut )?\[T(; N)?\]>::into_iter$")
def _intoiter(E, fr, st, c, a, ty, t):
    return [(st, mkiter(E, st, "iter", arrmeta(E, a[0], ty)))]


# ---------------------------------------------------------------- iterators
# iterator value: ("agg", "it:<kind>", 0, id, base, ...) ; `id` distinguishes iterator instances
@m(r"IntoIterator for \[T; N\]>::into_iter$|^core::array::iter::<impl .*IntoIterator for \[.*\]>::into_iter$")
def _arrayiter(E, fr, st, c, a, ty, t):
    tt = E.types[ty[0]] if ty and ty[0] is not None else None
    x = a[0]
    if not tt or tt["k"] != "array" or tt.get("n") is None or tt["n"] > E.unroll:
        return None
    if x.op == "agg" and x.a[0] == "array" and len(x.a) - 2 == tt["n"]:
        items = list(x.a[2:])
    else:
        items = [project(x, ("i", I(j))) for j in range(tt["n"])]
    return [(st, agg("it:list", 0, agg("it:array", 0, x), *items))]


def iter_id(E, st, kind, a):
    """one identity per call site, calling context and iterated object, so that abstract paths through the same code agree"""
    k = (E.site, E.stack, kind, tuple(a))
    i = E.iterids.get(k)
    if i is None:
        E.uid += 1
        i = E.iterids[k] = I(E.uid)
    ex = mk("exhausted", i)
    if ex in st.ev:
        del st.ev[ex]
    return i


def mkiter(E, st, kind, *a):
    if a[0].op == "agg" and a[0].a[0] == "chunkview":
        if kind == "iter":
            return mkiter(E, st, "chunks_exact", a[0].a[2], a[0].a[3])
        raise Exception("unsupported iteration over as_chunks")
    idt = iter_id(E, st, kind, a)
    E.iters[idt] = (kind,) + a
    it = agg("it:" + kind, 0, idt, *a)
    # short sequences of known length are iterated element by element
    p = a[0]
    n = E.len_of(p)
    n = E.ev(st, n)
    if isint(n) and p.op == "ref" and (len(a) == 1 or isint(a[1]) and a[1].a[0] > 0):
        n = n.a[0]
        k = a[1].a[0] if len(a) > 1 else 1
        cnt = n // k if kind.endswith("exact") else -(-n // k)
        if 0 <= cnt <= E.unroll:
            items = []
            for j in range(cnt):
                if kind == "iter":
                    items.append(elemref(E, p, I(j)))
                elif kind.startswith("r"):
                    items.append(E.slice_ref(p, I(max(0, n - (j + 1) * k)), I(n - j * k)))
                else:
                    items.append(E.slice_ref(p, I(j * k), I(min(n, (j + 1) * k))))
            return agg("it:list", 0, it, *items)
    return it



def as_list(E, it):
    """the remaining items if known, else None"""
    if it.op != "agg":
        return None
    if it.a[0] == "it:list":
        return list(it.a[3:])
    if it.a[0].endswith("ops::range::Range") and isint(it.a[2]) and isint(it.a[3]) and it.a[3].a[0] - it.a[2].a[0] <= E.unroll:
        return [I(v) for v in range(it.a[2].a[0], it.a[3].a[0])]
    return None


def abstract(it):
    return it.a[2] if it.op == "agg" and it.a[0] == "it:list" else it


@m(r"^core::slice::<impl \[T\]>::iter(_mut)?$")
def _iter(E, fr, st, c, a, ty, t):
    return [(st, mkiter(E, st, "iter", a[0]))]


@m(r"^core::slice::<impl \[T\]>::r?chunks(_exact)?(_mut)?$")
def _chunks(E, fr, st, c, a, ty, t):
    nm = (c.get("rpath") or c["path"]).rsplit("::", 1)[-1].replace("_mut", "")
    return [(st, mkiter(E, st, nm, a[0], a[1]))]


@m(r"^core::slice::<impl \[T\]>::as_chunks(_mut)?$")
def _as_chunks(E, fr, st, c, a, ty, t):
    mm = re.search(r"as_chunks(?:_mut)?::<(\d+)>$", c.get("key", ""))
    if not mm:
        return None
    n = I(int(mm.group(1)))
    p = arrmeta(E, a[0], ty)
    ln = E.ev(st, E.len_of(p))
    if isint(ln):
        m = I(ln.a[0] // n.a[0] * n.a[0])
        return [(st, agg("tuple", 0, agg("chunkview", 0, E.slice_ref(p, I(0), m), n), E.slice_ref(p, m, ln)))]
    rl = mk("remlen", ln, n)
    return [(st, agg("tuple", 0, agg("chunkview", 0, p, n), E.slice_ref(p, sub(ln, rl), ln)))]


@m(r"^core::iter::traits::iterator::Iterator::(zip|chain)$")
def _zip(E, fr, st, c, a, ty, t):
    nm = c["path"].rsplit("::", 1)[-1]
    b = a[1]
    if b.op == "ref" or b.op == "agg" and b.a[0] == "chunkview":
        b = mkiter(E, st, "iter", arrmeta(E, b, ty[1:]))
    r = agg("it:" + nm, 0, abstract(a[0]), abstract(b))
    x, y = as_list(E, a[0]), as_list(E, b)
    if nm == "zip" and x is not None and y is not None:
        return [(st, agg("it:list", 0, r, *[agg("tuple", 0, p, q) for p, q in zip(x, y)]))]
    if nm == "chain" and x is not None and y is not None:
        return [(st, agg("it:list", 0, r, *(x + y)))]
    return [(st, r)]


@m(r"^core::iter::traits::iterator::Iterator::(enumerate|rev|copied|cloned)$")
def _adapt(E, fr, st, c, a, ty, t):
    nm = c["path"].rsplit("::", 1)[-1]
    r = agg("it:" + nm, 0, abstract(a[0]), iter_id(E, st, nm, a))
    x = as_list(E, a[0])
    if x is not None:
        if nm == "rev":
            x.reverse()
        elif nm == "enumerate":
            x = [agg("tuple", 0, I(i), v) for i, v in enumerate(x)]
        else:
            x = [E.rd(st, v) for v in x]
        return [(st, agg("it:list", 0, r, *x))]
    return [(st, r)]


@m(r"^core::iter::traits::iterator::Iterator::(skip|take|step_by|map|filter)$")
def _adapt2(E, fr, st, c, a, ty, t):
    nm = c["path"].rsplit("::", 1)[-1]
    x = as_list(E, a[0])
    if x is not None and nm in ("skip", "take", "step_by") and isint(a[1]):
        k = a[1].a[0]
        y = x[k:] if nm == "skip" else x[:k] if nm == "take" else x[::k]
        E.uid += 1
        return [(st, agg("it:list", 0, mk("sym", "it%d" % E.uid), *y))]
    it = E.rd(st, a[0]) if a[0].op == "ref" else a[0]
    if nm in ("take", "skip") and it.op == "agg" and it.a[0] in ("it:chunks", "it:chunks_exact"):
        old = it.a[2]
        idt = iter_id(E, st, nm, (it, a[1]))
        if old in E.bounds:
            return None
        E.iters[idt] = E.iters[old]
        E.bounds[idt] = (nm, a[1])
        if a[0].op == "ref":
            # what is left of the borrowed iterator starts at an element this model does not track
            rest = iter_id(E, st, "rest", (it, a[1]))
            E.iters[rest] = ("rest",) + tuple(E.iters[old][1:])
            E.wr(st, a[0], agg(it.a[0], 0, rest, *it.a[3:]))
        return [(st, agg("it:bounded", 0, agg(it.a[0], 0, idt, *it.a[3:])))]
    return None


def it_any(E, st, it):
    r = it_next(E, st, it) if it.op == "agg" and it.a[0].startswith("it:") else None
    if r is None:
        s1 = st.copy()
        if it.op == "agg" and it.a[0].endswith("ops::range::Range"):
            v = mk("itval", it)
            E.assume(s1, b_lt(v, it.a[3]), 1)
            return [(s1, v), (st, None)]
        return [(s1, mk("itval", E.view(st, it))), (st, None)]
    return r


def it_next(E, st, it):
    """-> list of (state, item or None)  (None = exhausted)"""
    k = it.a[0]
    if k == "it:list":
        return it_any(E, st, it.a[2])
    if k == "it:iter":
        idt, p = it.a[2], it.a[3]
        i = mk("itidx", idt)
        o, pa, _ = E.deref(p)
        s1, s2 = st.copy(), st
        c = mk("more", idt)
        # each call decides afresh
        s2.ev[mk("exhausted", idt)] = 1
        return [(s1, ref(o, extend(pa, ("i", i)), None, p.a[3] if p.op == "ref" else True)), (s2, None)]
    if k in ("it:chunks", "it:chunks_exact", "it:rchunks", "it:rchunks_exact"):
        idt, p, n = it.a[2], it.a[3], it.a[4]
        i = mk("itidx", idt)
        s1, s2 = st.copy(), st
        s2.ev[mk("exhausted", idt)] = 1
        if k.endswith("exact"):
            hi = add(i, n)
        else:
            hi = mk("itend", idt)
        return [(s1, E.slice_ref(p, i, hi)), (s2, None)]
    if k == "it:bounded":
        # ends without having visited every element
        res = it_any(E, st, it.a[2])
        for s, x in res:
            if x is None:
                s.ev.pop(mk("exhausted", it.a[2].a[2]), None)
                s.ev[mk("ended", it.a[2].a[2])] = 1
        return res
    if k == "it:zip":
        res = []
        for s, x in it_any(E, st, it.a[2]):
            if x is None:
                res.append((s, None))
                continue
            for s2, y in it_any(E, s, it.a[3]):
                res.append((s2, None if y is None else agg("tuple", 0, x, y)))
        return res
    if k == "it:chain":
        return it_any(E, st.copy(), it.a[2]) + it_any(E, st, it.a[3])
    if k == "it:enumerate":
        return [(s, None if x is None else agg("tuple", 0, mk("itcnt", it.a[3]), x)) for s, x in it_any(E, st, it.a[2])]
    if k == "it:rev":
        return it_any(E, st, it.a[2])
    if k in ("it:copied", "it:cloned"):
        return [(s, None if x is None else E.rd(s, x)) for s, x in it_any(E, st, it.a[2])]
    return None


@m(r"as core::iter::traits::iterator::Iterator>::next$|core::iter::traits::iterator::Iterator for core::ops::range::Range(Inclusive)?<A>>::next$")
def _next(E, fr, st, c, a, ty, t):
    p = a[0]
    it = E.rd(st, p)
    pth = c.get("rpath") or c["path"]
    if pth.startswith("<&mut I as"):
        p = it
        it = E.rd(st, p) if it.op == "ref" else it
    if it.op == "agg" and it.a[0] == "it:list":
        if len(it.a) > 3:
            E.wr(st, p, agg("it:list", 0, it.a[2], *it.a[4:]))
            return [(st, some(it.a[3]))]
        for x in subterms(it.a[2]):
            if x.op == "agg" and str(x.a[0]).startswith("it:") and len(x.a) > 2 and isint(x.a[2]):
                st.ev[mk("exhausted", x.a[2])] = 1
        return [(st, NONE)]
    if it.op == "agg" and it.a[0].startswith("it:"):
        r = it_next(E, st, it)
        if r is None:
            return None
        return [(s, NONE if x is None else some(x)) for s, x in r]
    if "ops::range::Range<" in pth and it.op == "agg":
        lo, hi = it.a[2], it.a[3]
        res = []
        for s, v in fork(st, E, b_lt(lo, hi), 1, 0):
            if v:
                E.wr(s, p, agg(it.a[0], 0, add(lo, I(1)), hi))
                res.append((s, some(lo)))
            else:
                res.append((s, NONE))
        return res
    if re.search(r"core::(slice|iter)::(iter|adapters)", pth) or "RangeInclusive" in pth:
        return [(s, NONE if x is None else some(x)) for s, x in it_any(E, st, it)]
    return None


@m(r"Iterator>?::(any|all|find|find_map|position)$")
def _anyall(E, fr, st, c, a, ty, t):
    nm = (c.get("rpath") or c["path"]).rsplit("::", 1)[-1]
    want = 0 if nm == "all" else 1
    it = E.rd(st, a[0]) if a[0].op == "ref" else a[0]
    if it.op == "ref":
        it = E.rd(st, it)
    f = a[1]

    def test(s, item, j):
        """-> [(state, 0/1, result if it stops here)]"""
        x = item
        if nm == "find":
            E.uid += 1
            ob = ("L", fr.uid, "find%d" % E.uid)
            s.mem[ob] = item
            x = ref(ob, (), None, False)
        r = call_fn(E, fr, s, f, agg("tuple", 0, x), t)
        if r is None:
            return None
        out = []
        for s2, v in r:
            if nm == "find_map":
                d = E.ev(s2, mk("disc", v)) if v.op != "agg" else I(v.a[1])
                for s3, w in fork(s2, E, b_eq(d, I(1)), 1, 0):
                    out.append((s3, w, v if v.op == "agg" and v.a[1] == 1 else some(project(project(v, ("d", 1)), ("f", 0)))))
                continue
            v = E.ev(s2, v)
            hit = {"find": some(item), "position": some(j)}.get(nm, I(want))
            out += [(s3, w, hit) for s3, w in ([(s2, v.a[0])] if isint(v) else fork(s2, E, v, 1, 0))]
        return out
    miss = I(1 - want) if nm in ("any", "all") else NONE
    items = as_list(E, it)
    if items is not None:
        cur, res = [st], []
        for j, x in enumerate(items):
            nxt = []
            for s in cur:
                r = test(s, x, I(j))
                if r is None:
                    return None
                for s2, v, h in r:
                    if v == want:
                        res.append((s2, h))
                    else:
                        nxt.append(s2)
            if len(nxt) > 8 or len(res) > 20:
                return None
            cur = nxt
        return res + [(s, miss) for s in cur]
    if not (it.op == "agg" and it.a[0].startswith("it:")):
        return None
    r = it_next(E, st.copy(), it)
    if r is None:
        return None
    res, cont, none = [], [], []
    for s, x in r:
        if x is None:
            none.append(s)
            continue
        base = s.copy()
        E.uid += 1
        q = test(s, x, mk("sym", "pos%d" % E.uid))
        if q is None:
            return None
        for s2, v, h in q:
            if v == want:
                res.append((s2, h))
            else:
                cont.append(s2)
        if cont:
            fa = E.step_facts(base, cont)
    for s in none:
        if cont:
            for x in fa:
                s.ev[x] = 1
        res.append((s, miss))
    return res


@m(r"^core::mem::size_of$|^core::mem::size_of_val$")
def _size_of(E, fr, st, c, a, ty, t):
    if c["path"].endswith("size_of"):
        x = c.get("targs", [None])[0]
        if isinstance(x, int) and E.types[x].get("size") is not None:
            return [(st, I(E.types[x]["size"]))]
        return None
    tt = E.types[ty[0]] if ty and ty[0] is not None else None
    if tt and tt["k"] in ("ref", "ptr"):
        e = E.types[tt["e"]]
        if e.get("size") is not None and e["k"] != "slice":
            return [(st, I(e["size"]))]
        if e["k"] == "slice" and E.types[e["e"]].get("size") is not None:
            return [(st, mulc(E.len_of(a[0]), E.types[e["e"]]["size"]))]
    return None


@m(r"^<(bool|u8|u16|u32|u64|usize|i\d+) as core::default::Default>::default$")
def _default(E, fr, st, c, a, ty, t):
    return [(st, I(0))]


@m(r"^<&(u8|u16|u32|u64|usize) as core::ops::bit::(BitAnd|BitOr|BitXor|Shr|Shl)<\w+>>::\w+$")
def _refbit(E, fr, st, c, a, ty, t):
    o = re.search(r"bit::(\w+)<", c.get("rpath") or c["path"]).group(1)
    return [(st, E.binop(st, fr, o, E.rd(st, a[0]), a[1], None))]


@m(r"^core::slice::<impl core::default::Default for &(mut )?\[T\]>::default$")
def _defslice(E, fr, st, c, a, ty, t):
    return [(st, ref(("K", mk("bytes", b"")), (), I(0), True))]


@m(r"ChunksExact(Mut)?::<'a, T>::(into_)?remainder$")
def _rem(E, fr, st, c, a, ty, t):
    it = a[0]
    if it.op == "ref" or it.op != "agg":
        it = E.rd(st, it)
    it = abstract(it)
    if it.op == "agg" and it.a[0] in ("it:chunks_exact", "it:rchunks_exact"):
        p, n = it.a[3], it.a[4]
        ln = E.len_of(p)
        r = mk("remlen", ln, n)
        if "rchunks" in it.a[0]:
            return [(st, E.slice_ref(p, I(0), r))]
        return [(st, E.slice_ref(p, sub(ln, r), ln))]
    return None


# ---------------------------------------------------------------- comparison
@m(r"^core::slice::cmp::<impl core::cmp::PartialEq<\[U\]> for \[T\]>::eq$|^core::array::equality::.*::eq$|^core::slice::cmp::.*::ne$|^core::array::equality::.*::ne$|^core::cmp::impls::<impl core::cmp::PartialEq<&B> for &A>::(eq|ne)$|^<core::option::Option<T> as core::cmp::PartialEq>::eq$NOPE")
def _eq(E, fr, st, c, a, ty, t):
    path = c.get("rpath") or c["path"]
    tt = [E.types[x] if x is not None else None for x in ty]
    x, y = a
    tx, ty_ = tt

    def strip(v, tp):
        tp = E.types[tp["e"]] if tp and tp["k"] == "ref" else None
        while tp and tp["k"] == "ref":
            v = E.rd(st, v)
            tp = E.types[tp["e"]]
        return v, tp
    x, ex = strip(x, tx)
    y, ey = strip(y, ty_)
    if not ex or ex["k"] not in ("slice", "array"):
        return None
    if E.types[ex["e"]]["k"] not in ("uint", "int", "bool"):
        return None
    cx, cy = E.rd(st, x), E.rd(st, y)
    r = seq_eq(E, st, x, y, cx, cy)
    return [(st, b_not(r) if path.endswith("::ne") else r)]


def seq_eq(E, st, x, y, cx, cy):
    l = b_eq(E.len_of(x), E.len_of(y))
    if isint(l) and not l.a[0]:
        return FALSE
    if cx is cy:
        return TRUE
    if cx.op == "bytes" and cy.op == "bytes":
        return I(cx.a[0] == cy.a[0])
    if cx.n > cy.n:
        cx, cy = cy, cx
    return b_and(l, mk("seqeq", cx, cy))


@m(r"^core::array::<impl core::convert::TryFrom<&'a (mut )?\[T\]> for &'a (mut )?\[T; N\]>::try_from$|^core::array::<impl core::convert::TryFrom<&(mut )?\[T\]> for \[T; N\]>::try_from$")
def _tryfrom(E, fr, st, c, a, ty, t):
    # length known from the instance key
    mm = re.search(r"; (\d+)\]", c.get("key", ""))
    if not mm:
        return None
    n = I(int(mm.group(1)))
    p = a[0]
    ln = E.len_of(p)
    byval = "for [T; N]" in (c.get("rpath") or c["path"])
    res = []
    for s, v in fork(st, E, b_eq(ln, n), 1, 0):
        if v:
            o, pa, _ = E.deref(p)
            r = ref(o, pa, n, p.a[3] if p.op == "ref" else False)
            res.append((s, agg(RES, 0, E.rd(s, r) if byval else r)))
        else:
            res.append((s, agg(RES, 1, mk("sym", "TryFromSliceError"))))
    return res


@m(r"^<T as core::convert::TryInto<U>>::try_into$")
def _tryinto(E, fr, st, c, a, ty, t):
    tt = E.types[ty[0]] if ty and ty[0] is not None else None
    targs = c.get("targs", [])
    if tt and tt["k"] == "ref" and E.types[tt["e"]]["k"] == "slice" and len(targs) >= 2 and isinstance(targs[1], int):
        d = E.types[targs[1]]
        byval = d["k"] == "array"
        if d["k"] == "ref":
            d = E.types[d["e"]]
        if d["k"] == "array" and d.get("n") is not None:
            n = I(d["n"])
            p = a[0]
            res = []
            for s, v in fork(st, E, b_eq(E.len_of(p), n), 1, 0):
                if v:
                    o, pa, _ = E.deref(p)
                    r = ref(o, pa, n, p.a[3] if p.op == "ref" else False)
                    res.append((s, agg(RES, 0, E.rd(s, r) if byval else r)))
                else:
                    res.append((s, agg(RES, 1, mk("sym", "TryFromSliceError"))))
            return res
    return None


@m(r"^core::num::<impl (u|i)(8|16|32|64|128|size)>::(to|from)_(be|le|ne)_bytes$")
def _bytesconv(E, fr, st, c, a, ty, t):
    p = c.get("rpath") or c["path"]
    mm = re.search(r"impl (u|i)(\w+)>::(to|from)_(be|le)_bytes", p)
    if not mm:
        return None
    sz = {"8": 1, "16": 2, "32": 4, "64": 8, "128": 16, "size": 8}[mm.group(2)]
    e = "big" if mm.group(4) == "be" else "little"
    x = a[0]
    if mm.group(3) == "to" and isint(x):
        return [(st, mk("bytes", (x.a[0] & ((1 << (8 * sz)) - 1)).to_bytes(sz, e)))]
    if mm.group(3) == "from" and x.op == "bytes":
        return [(st, I(int.from_bytes(x.a[0], e, signed=mm.group(1) == "i")))]
    if mm.group(3) == "from" and x.op == "rep" and isint(x.a[0]) and x.a[0].a[0] == 0:
        return [(st, I(0))]
    return [(st, mk(mm.group(3) + "_" + mm.group(4), sz, x))]


@m(r"^core::num::<impl (u|i)(8|16|32|64|128|size)>::(wrapping|saturating|checked|unchecked)_(add|sub|mul)$")
def _arith(E, fr, st, c, a, ty, t):
    p = c.get("rpath") or c["path"]
    mm = re.search(r"impl (u|i)(\w+)>::(\w+?)_(add|sub|mul)$", p)
    kind, o = mm.group(3), {"add": "Add", "sub": "Sub", "mul": "Mul"}[mm.group(4)]
    r = E.binop(st, fr, o, a[0], a[1], ty[0])
    if kind == "checked":
        if isint(a[0]) and isint(a[1]):
            x, y = a[0].a[0], a[1].a[0]
            v = {"Add": x + y, "Sub": x - y, "Mul": x * y}[o]
            bits = 64 if mm.group(2) == "size" else int(mm.group(2))
            ok = 0 <= v < (1 << bits) if mm.group(1) == "u" else -(1 << (bits - 1)) <= v < (1 << (bits - 1))
            return [(st, some(I(v)) if ok else NONE)]
        if o == "Sub" and mm.group(1) == "u":
            return [(s, NONE if v else some(r)) for s, v in fork(st, E, b_lt(a[0], a[1]), 1, 0)]
        cond = mk("ovf", o, a[0], a[1])
        return [(s, NONE if v else some(r)) for s, v in fork(st, E, cond, 1, 0)]
    if kind == "saturating" and not isint(r):
        return [(st, mk("sat", o, a[0], a[1]))]
    if kind == "saturating":
        x, y = a[0].a[0] if isint(a[0]) else None, a[1].a[0] if isint(a[1]) else None
        if x is None or y is None:
            return [(st, mk("sat", o, a[0], a[1]))]
        v = {"Add": x + y, "Sub": x - y, "Mul": x * y}[o]
        return [(st, I(max(v, 0)))] if mm.group(1) == "u" else [(st, I(v))]
    return [(st, r)]


@m(r"^core::num::<impl u(8|16|32|64|128|size)>::is_multiple_of$")
def _multiple(E, fr, st, c, a, ty, t):
    if isint(a[1]) and a[1].a[0] == 0:
        return [(st, b_eq(a[0], I(0)))]
    if not isint(a[1]):
        return None
    return [(st, b_eq(E.binop(st, fr, "Rem", a[0], a[1], ty[0]), I(0)))]


@m(r"^core::cmp::(min|max)$|^core::cmp::Ord::(min|max)$|^core::cmp::impls::<impl core::cmp::Ord for \w+>::(min|max)$")
def _minmax(E, fr, st, c, a, ty, t):
    nm = c["path"].rsplit("::", 1)[-1]
    tt = E.types[ty[0]] if ty and ty[0] is not None else None
    if tt and tt["k"] in ("uint", "int"):
        lt = b_lt(a[0], a[1])
        if nm == "min":
            return [(st, mkite(lt, a[0], a[1]))]
        return [(st, mkite(lt, a[1], a[0]))]
    return None


@m(r"^<.* as core::ops::function::Fn(Once|Mut)?<.*>>::call(_once|_mut)?$|^core::ops::function::Fn(Once|Mut)?::call(_once|_mut)?$|^core::ops::function::impls::")
def _fncall(E, fr, st, c, a, ty, t):
    return call_fn(E, fr, st, a[0], a[1], t)


def call_fn(E, fr, st, f, tup, t):
    x = f
    if x.op == "ref":
        x = E.rd(st, x)
    aa = list(tup.a[2:]) if tup.op == "agg" else None
    if aa is None:
        return None
    if x.op == "fn":
        callee = E.callreg.get(x.a[0])
        if callee is None:
            for k in (x.a[0],):
                f_ = E.fns.get(k)
                if f_:
                    callee = {"path": f_["path"], "key": k}
            if callee is None:
                # constructor used as function value
                callee = {"path": x.a[0], "key": x.a[0], "ctor": True}
        r, _ = E.call(fr, st, callee, aa, [None] * len(aa), dict(t, t=0))
        return r
    if x.op == "agg" and str(x.a[0]).startswith("closure "):
        key = x.a[0][8:]
        f_ = E.fns.get(key)
        if f_ and f_.get("body"):
            return E.inline(fr, st, key, f_, [f if f.op == "ref" else x, tup])
    return None
