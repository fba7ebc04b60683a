"""Inline assembly: the contract between each asm block and the compiler (C08)."""
import re
from . import asm as A
from . import isa
from .core import guarded
from .engine import *
from .q import *
from .rules_ec import archs

# instructions with effects beyond the operands isa.py models
IMPLICIT = re.compile(r"^(cpuid|rdtscp?|xgetbv|xsetbv|syscall|sysenter|int\w*|cmpxchg\w*|lods\w*|stos\w*|scas\w*|cmps[bwdq]|leave|enter|pushf\w*|popf\w*|cld|std|sahf|lahf|xlat\w*|cbw|cwde|cdqe|cwd|ldmxcsr|vldmxcsr|fld\w*|fst\w*|emms|xsave\w*|xrstor\w*|fxsave|wrmsr|rdmsr|maskmov\w*|v?gather\w*|vp?gather\w*|vp?scatter\w*|svc|hvc|smc|eret|brk|hlt|br|blr|ldaxr|stlxr|ldxr|stxr|cas\w*|swp\w*|ldadd\w*|dc|ic|tlbi)$")


def asm_blocks(crate):
    """(key, fn, block index, terminator) of every inline assembly block of the crate's own code"""
    for k, f in sorted(crate.fns.items()):
        if f.get("body") and f.get("local"):
            for bi, b in enumerate(f["body"]["blocks"]):
                t = b["t"]
                if isinstance(t, dict) and t.get("k") == "asm":
                    yield k, f, bi, t


class Defs:
    """the unique definition of each local of a body (None when there are several)"""

    def __init__(self, f):
        self.d = {}
        for b in f["body"]["blocks"]:
            for s in b["s"]:
                if s[0] == "=":
                    self.add(s[1], ("rv", s[2]))
            t = b["t"]
            if isinstance(t, dict):
                if t.get("k") == "call":
                    self.add(t["dest"], ("call", t))
                elif t.get("k") == "asm":
                    for o in t["ops"]:
                        if o.get("p"):
                            self.add(o["p"], ("asm", o))

    def add(self, place, d):
        if place and not place[1]:
            self.d[place[0]] = None if place[0] in self.d else d
        elif place and place[1][0] != "*":
            self.d[place[0]] = None

    def get(self, l):
        return self.d.get(l)


AS_PTR = re.compile(r"^core::(slice::<impl \[T\]>|array::<impl \[T; N\]>)::(as_ptr|as_mut_ptr)$|::as_ptr_range$")
PTR_CAST = re.compile(r"^core::ptr::(const_ptr|mut_ptr)::<impl \*(const|mut) T>::(cast|cast_mut|cast_const)$|^core::ptr::(from_ref|from_mut)$")


def pointee(crate, f, defs, op):
    """follow a pointer operand to what it was made from: (size in bytes or None, mutable, chain text)"""
    size, mut, steps = None, True, 0
    while steps < 40:
        steps += 1
        if op[0] == "k":
            return size, mut
        l, pr = op[1]
        ty = crate.types[f["body"]["locals"][l][0]]
        if pr:
            return size, mut
        if ty["k"] in ("ref", "ptr"):
            e = crate.types[ty["e"]]
            if e["k"] == "array" and e.get("size") or e["k"] == "adt" and e.get("size"):
                size = e["size"]
            elif e["k"] in ("slice", "param"):
                size = None
            if not ty.get("mut"):
                mut = False
        d = defs.get(l)
        if d is None:
            return size, mut
        if d[0] == "call":
            c = d[1]["f"]
            p = c[1].get("fn", {}).get("path", "") if c[0] == "k" else ""
            if (AS_PTR.search(p) or PTR_CAST.search(p)) and d[1]["args"]:
                if AS_PTR.search(p):
                    size = None
                op = d[1]["args"][0]
                continue
            return size, mut
        if d[0] != "rv":
            return size, mut
        rv = d[1]
        if rv[0] == "use":
            op = rv[1]
        elif rv[0] == "cast":
            op = rv[2]
        elif rv[0] in ("ref", "raw"):
            if "mut" not in rv[1].lower():
                mut = False
            pl = rv[2]
            if pl[1] == ["*"]:
                op = ["c", [pl[0], []]]
            else:
                t = place_ty(crate, f, pl)
                if t is not None and crate.types[t]["k"] in ("array", "adt") and crate.types[t].get("size"):
                    size = crate.types[t]["size"]
                return size, mut
        else:
            return size, mut
    return size, mut


def place_ty(crate, f, pl):
    t = f["body"]["locals"][pl[0]][0]
    for e in pl[1]:
        ty = crate.types[t]
        if e == "*":
            t = ty.get("e")
        elif isinstance(e, list) and e and e[0] in ("f", "field"):
            t = e[-1] if isinstance(e[-1], int) else None
        else:
            t = None
        if t is None:
            return None
    return t


def opinfo(crate, f, t, defs=None):
    defs = defs or Defs(f)
    r = []
    for o in t["ops"]:
        d = {}
        ty = o.get("ty")
        if ty is not None and crate.types[ty]["k"] in ("ptr", "ref"):
            d["ptr"] = True
            size, mut = pointee(crate, f, defs, o["v"]) if o.get("v") else (None, True)
            d["mut"] = bool(crate.types[ty].get("mut")) and mut
            d["size"] = size
        elif o["k"] == "symstatic":
            s = crate.statics.get(o["v"])
            d["size"] = len(s["bytes"]) // 2 if s and s.get("bytes") else None
        r.append(d)
    return r


def written(a, reg):
    v = a.exit.r.get(reg)
    return v is not None and v.t != ("init", reg)


def block(ctx, an, crate, k, f, bi, t):
    nm = "%s %s" % (an, k.split("graviola::")[-1])
    where = "%s:%s" % (f["file"], t.get("line") or f["line"])
    ctx.analysed.add(k)
    a = isa.Asm(t, an, opinfo(crate, f, t))
    for x in a.ins:
        if IMPLICIT.match(x.m):
            ctx.ob("asm-decided", "%s `%s`" % (nm, x.text), False, "instruction with effects the analysis does not model", "%s:%s" % (f["file"], x.line))
            return a
    a.run()
    ctx.count("instructions", len(a.ins))
    ctx.count("memory accesses", a.addr)
    ctx.count("accesses at a constant offset of an object of known size", a.checked)
    ctx.count("accesses at computed offsets or of slices (only their object is checked)", a.unbounded)
    if a.exit is None:
        ctx.ob("asm-decided", nm, False, "the end of the block is unreachable", where)
        return a
    opts = t.get("opts") or ""
    outs, ins = set(), set()
    for i, o in enumerate(t["ops"]):
        if o["k"] in ("out", "inout", "in"):
            r = str(o["reg"])
            reg = a.phys(r.strip('"')) if r.startswith('"') else "op%d" % i
            (ins if o["k"] == "in" else outs).add(reg)
            if o["k"] in ("out", "inout") and o.get("p"):
                ctx.ob("asm-output", "%s operand %d" % (nm, i), o["k"] == "inout" or written(a, reg), "output operand %d (%s) is used after the block but no path writes it" % (i, reg), where)
    spn = "rsp" if an[0] == "x" else "sp"
    bad = []
    for reg in sorted(a.exit.r):
        if reg in (spn, "zr") or not written(a, reg):
            continue
        if reg in outs:
            continue
        if a.exit.r[reg].t == ("in", reg):
            continue
        bad.append(reg)
    ctx.ob("asm-clobber", nm, not bad, "the block leaves %s modified without declaring it as output or clobber: the compiler may keep a live value there" % ", ".join(reg_name(t, r) for r in bad), where)
    ctx.count("registers written and declared", len([r for r in a.exit.r if written(a, r)]))
    sp = a.sp(a.exit)
    ctx.ob("asm-stack", nm, sp == 0, "the stack pointer is %s on leaving the block" % ("not restored" if sp is None else "off by %d bytes" % sp), where)
    for (line, text), why in sorted(a.oob.items()):
        ctx.ob("asm-access", "%s `%s`" % (nm, re.sub(r"\s+", " ", text)), False, why, "%s:%s" % (f["file"], line))
    for (line, text), why in sorted(a.unknown.items()):
        ctx.ob("asm-access", "%s `%s`" % (nm, re.sub(r"\s+", " ", text)), False, why, "%s:%s" % (f["file"], line))
    ctx.ob("asm-access", nm, not a.oob and not a.unknown, "", where)
    if opts:
        ctx.ob("asm-options", nm, not ("NOSTACK" in opts and a.stackuse), "options(nostack), but the block uses the stack", where)
        ctx.ob("asm-options", nm + " ", not ("NOMEM" in opts and (a.stores or a.loads)), "options(nomem), but the block accesses memory", where)
        ctx.ob("asm-options", nm + "  ", not ("READONLY" in opts and a.stores), "options(readonly), but the block stores to memory", where)
        ctx.ob("asm-options", nm + "   ", not ("PRESERVES_FLAGS" in opts and a.flags), "options(preserves_flags), but the block sets flags", where)
    return a


def reg_name(t, r):
    return "operand %s (declared as input only)" % r[2:] if r.startswith("op") else r


def C08(ctx):
    ctx.rule("asm-clobber", "abstract interpretation of every asm block over all its paths (local subroutines per call stack, saved registers tracked through the stack): each register not holding its initial value at the end is a declared output or clobber, and input-only operands are unchanged")
    ctx.rule("asm-output", "every output operand whose value the program uses is written")
    ctx.rule("asm-stack", "the stack pointer is restored at the end of the block")
    ctx.rule("asm-access", "every load and store is through an operand's pointer, the block's own stack frame or a named constant table; constant offsets stay inside the array the pointer was made from, inside the frame or the table; stores only through pointers derived from mutable references")
    ctx.rule("asm-options", "options(nomem/readonly/nostack/preserves_flags) agree with what the instructions do")
    ctx.rule("asm-decided", "every instruction is one the analysis models")
    n = 0
    for an, crate in archs(ctx):
        for k, f, bi, t in asm_blocks(crate):
            n += 1
            guarded(ctx, "%s %s" % (an, k), lambda c: block(c, an, crate, k, f, bi, t))
    ctx.floor("assembly blocks", n, 140)
