"""CPU state and features: secret entry guards and register scrubbing (C04), feature gating (C03)."""
import os
import re
from . import asm as A
from .core import guarded
from .engine import *
from .q import *
from .rules_ec import archs
from .rules_api import PUBLIC_TYPES, Secrets, call_graph, fn_refs, sig_of, path_to

ENTRY = "graviola::low::entry::Entry"
# low functions that leave no secret behind in vector registers or that are the guard itself
NEUTRAL = re.compile(r"::(entry::Entry|ct::|generic::zeroise|cpu::(enter_cpu_state|leave_cpu_state|verify_cpu_features|zero_bytes|_zero_bytes|test_toggle|prefetch)|inline_assembly_safety)|zeroise(_value)?$|::_?zero_bytes$|::macros::")


def entry_ty(crate):
    for p, a in crate.adts.items():
        if p.startswith("graviola::low::") and a.get("dtor"):
            f = crate.fns.get(a["dtor"])
            if f and f.get("body") and any(r.endswith("::leave_cpu_state") for r in call_paths(f)):
                return p
    return None


class Guards:
    """which functions do their computing only while a secret entry guard is alive"""

    def __init__(self, crate, mode):
        self.crate = crate
        self.mode = mode
        self.entry = entry_ty(crate)
        self.succ = call_graph(crate)
        self.comp = {}
        self.own = {}
        self.prot = {}
        self.byname = {}
        self.features = None
        for k, f in crate.fns.items():
            self.byname.setdefault(f["path"], []).append(k)

    def is_compute(self, k):
        """a function of `low` that itself executes inline assembly, vector intrinsics or feature-gated code"""
        if k not in self.own:
            f = self.crate.fns.get(k)
            r = False
            if f and f.get("body") and f.get("local") and k.lstrip("<").startswith("graviola::low::") and not NEUTRAL.search(k):
                r = self.needs_features(k) if self.features else bool(f.get("tf")) or any(isinstance(b["t"], dict) and b["t"].get("k") == "asm" for b in f["body"]["blocks"]) or any("core_arch" in p for p in call_paths(f))
            self.own[k] = r
        return self.own[k]

    def needs_features(self, k):
        return k in self.features.reqdep

    def computes(self, k):
        """does calling k reach a computing function of `low`?"""
        if not self.comp:
            pred, st = {}, []
            for x in list(self.crate.fns) + list(self.byname):
                for y in self.succ(x):
                    pred.setdefault(y, []).append(x)
                    # names that are not keys (trait methods) dispatch further
                    if y not in self.crate.fns:
                        for z in self.succ(y):
                            pred.setdefault(z, []).append(y)
                if self.is_compute(x):
                    st.append(x)
            while st:
                x = st.pop()
                if x not in self.comp:
                    self.comp[x] = True
                    st.extend(pred.get(x, ()))
        return k in self.comp

    def makes_guard(self, k, seen=()):
        """'secret' | 'public' | None: what kind of guard a call to k returns"""
        if k in seen:
            return None
        if k.endswith("Entry::new_secret"):
            return "secret"
        if k.endswith("Entry::new_public"):
            return "public"
        f = self.crate.fns.get(k)
        if not f or not f.get("body") or not f.get("local"):
            return None
        args, ret = sig_of(self.crate, f)
        if self.entry not in ret:
            return None
        kinds = {self.makes_guard(c["key"], seen + (k,)) for c, t in call_sites(f) if c} - {None}
        if kinds == {"secret"}:
            return "secret"
        return "public" if kinds else None

    def find(self, c):
        for k in (c["key"], c.get("rpath"), c["path"]):
            if k in self.crate.fns and self.crate.fns[k].get("body"):
                return k
        return None

    def protected(self, k, busy=()):
        """[] if every computing call of k happens under a live guard (or inside a protected callee), else [(line, what)]"""
        if k in self.prot:
            return self.prot[k]
        f = self.crate.fns.get(k)
        if k in busy:
            return []
        if not f or not f.get("body"):
            return [(None, "no body")]
        bad = self.flow(k, f, busy + (k,))
        self.prot[k] = bad
        return bad

    def flow(self, k, f, busy):
        crate = self.crate
        ls = f["body"]["locals"]
        gl = {i for i, l in enumerate(ls) if crate.types[l[0] if isinstance(l, list) else l["ty"]]["s"] == self.entry}
        blocks = f["body"]["blocks"]
        # state: frozenset of live secret guards (locals); meet = intersection
        state = {0: frozenset()}
        work = [0]
        bad = {}
        steps = 0
        while work:
            b = work.pop()
            steps += 1
            if steps > 20000:
                return [(f["line"], "analysis did not converge")]
            live = set(state[b])
            bl = blocks[b]
            for s in bl["s"]:
                if isinstance(s, list) and s and s[0] == "=":
                    d, rv = s[1], s[2]
                    if isinstance(rv, list) and rv[0] == "use" and rv[1][0] == "m" and rv[1][1][0] in gl and not rv[1][1][1]:
                        src = rv[1][1][0]
                        if d[0] in gl and not d[1] and src in live:
                            live.discard(src)
                            live.add(d[0])
                        else:
                            live.discard(src)
                elif isinstance(s, list) and s and s[0] == "dead" and s[1] in gl:
                    live.discard(s[1])
            t = bl["t"]
            nxt = []
            if isinstance(t, dict):
                kind = t.get("k")
                if kind == "call":
                    c = t["f"][1].get("fn") if t["f"][0] == "k" and isinstance(t["f"][1], dict) else None
                    for a in t["args"]:
                        if a[0] == "m" and a[1][0] in gl:
                            live.discard(a[1][0])
                    why = None if self.mode == "secret" and self.public_args(f, t) else self.call_bad(c, live, busy, t)
                    if why:
                        bad[(b, "c")] = (t.get("line"), why)
                    else:
                        bad.pop((b, "c"), None)
                    if t["dest"][0] in gl and not t["dest"][1]:
                        g = self.makes_guard(c["key"]) if c else None
                        if g == "secret" or g == "public" and self.mode == "any":
                            live.add(t["dest"][0])
                        else:
                            live.discard(t["dest"][0])
                    if t.get("t") is not None:
                        nxt.append(t["t"])
                elif kind == "drop":
                    if t["place"][0] in gl and not t["place"][1]:
                        live.discard(t["place"][0])
                    nxt.append(t["t"])
                elif kind == "asm":
                    if not live:
                        bad[(b, "a")] = (t.get("line"), "inline assembly")
                    nxt += [x for x in ([t.get("t")] + list(t.get("targets") or [])) if isinstance(x, int)]
                else:
                    nxt += successors(t)
            else:
                nxt += successors(t)
            fl = frozenset(live)
            for n in nxt:
                if blocks[n].get("cl"):
                    continue
                if n not in state:
                    state[n] = fl
                    work.append(n)
                elif not state[n] <= fl:
                    state[n] = state[n] & fl
                    work.append(n)
        # errors recorded under a stronger state that later weakened are kept; recompute against final states
        return sorted(set(bad.values()), key=str)

    def public_args(self, f, t):
        """every argument is a (reference to a) key type that is public by nature: what is computed from them is not secret"""
        if not t["args"]:
            return False
        for a in t["args"]:
            if a[0] == "k":
                continue
            if a[1][1]:
                return False
            s = self.crate.types[f["body"]["locals"][a[1][0]][0]]["s"]
            if not PUBLIC_TYPES.search(re.sub(r"^&(mut )?", "", s).split("<")[0]):
                return False
        return True

    def call_bad(self, c, live, busy, t):
        if live:
            return None
        if c is None:
            return "a call through a pointer"
        ks = [x for x in (c["key"], c.get("rpath"), c["path"]) if x]
        if any(NEUTRAL.search(x) for x in ks):
            return None
        k = self.find(c)
        if not any(self.computes(x) for x in ([k] if k else ks)):
            # a closure handed to a library combinator runs inside it
            return None
        if k and not self.is_compute(k):
            sub_ = self.protected(k, busy)
            if not sub_:
                return None
            return "%s (%s)" % (short(k), ", ".join(str(x[1]) for x in sub_[:2]))
        if not k:
            # trait method without a resolved body: every implementation must be protected
            impls = [x for y in ks for x in self.succ(y) if x in self.crate.fns and self.crate.fns[x].get("body")]
            sub_ = [y for x in impls for y in self.protected(x, busy)]
            if impls and not sub_:
                return None
        return short(k or c["path"])


def short(k):
    return re.sub(r"graviola::", "", k)


def successors(t):
    if not isinstance(t, dict):
        return []
    out = [v[1] for v in t.get("vals", ())]
    for kk in ("else", "t"):
        if isinstance(t.get(kk), int):
            out.append(t[kk])
    return out


def api_fns(crate):
    """functions a user can call: inherent methods of exported types, exported functions, items of exported traits"""
    adts = {p for _, p, k in crate.exports if k in ("Struct", "Enum", "Union")}
    free = {p for _, p, k in crate.exports if k == "Fn"}
    traits = {p for _, p, k in crate.exports if k == "Trait"}
    impl = {}
    for im in crate.impls:
        if im.get("trait"):
            for _, k in im["items"]:
                impl[k] = im["trait"]
    for k, f in sorted(crate.fns.items()):
        if not (f.get("local") and f.get("reachable") and f.get("body")) or f.get("kind") == "Closure":
            continue
        tr = impl.get(k)
        if tr:
            if tr.startswith("graviola::") and tr not in traits or tr.startswith(("core::clone", "core::fmt", "core::ops::drop", "core::default")):
                continue
        elif f["path"] not in free and f.get("self_adt") not in adts:
            continue
        args, ret = sig_of(crate, f)
        # a parameter of a trait that is not exported cannot be supplied; *_internal are hidden testing hooks
        if any(("dyn graviola::" in s and not any("dyn " + t in s for t in traits)) for s in args) or f["path"].endswith("_internal"):
            continue
        yield k, f, args, ret


# ------------------------------------------------------------ CPU features
IMPLIES = {
    "x": {"sse2": ["sse"], "sse3": ["sse2"], "ssse3": ["sse3"], "sse4.1": ["ssse3"], "sse4.2": ["sse4.1"], "popcnt": [], "avx": ["sse4.2"], "avx2": ["avx"], "fma": ["avx"], "f16c": ["avx"],
          "aes": ["sse2"], "pclmulqdq": ["sse2"], "sha": ["sse2"], "vaes": ["avx2", "aes"], "vpclmulqdq": ["avx", "pclmulqdq"], "avx512f": ["avx2", "fma", "f16c"], "avx512bw": ["avx512f"], "avx512vl": ["avx512f"],
          "avx512dq": ["avx512f"], "gfni": ["sse2"]},
    "a": {"aes": ["neon"], "pmull": ["neon"], "sha2": ["neon"], "sha3": ["sha2"], "neon": []},
}
# every processor with sse4.2 has popcnt (it was introduced with it; x86-64-v2)
IMPLIES["x"]["sse4.2"].append("popcnt")
BASE = {"x": {"sse", "sse2", "fxsr", "x87"}, "a": {"neon"}}


def closure(n, fs):
    r, st = set(), list(fs)
    while st:
        x = st.pop()
        if x not in r:
            r.add(x)
            st += IMPLIES[n].get(x, ())
    return r


X_BMI2 = re.compile(r"^(mulx|pext|pdep|rorx|sarx|shlx|shrx|bzhi)$")
X_BMI1 = re.compile(r"^(andn|bextr|blsi|blsr|blsmsk|tzcnt)$")
X_AVX2 = re.compile(r"^(vpbroadcast\w|vbroadcasti128|vpblendd|vperm2i128|vpermq|vpermd|vpermpd|vpermps|vextracti128|vinserti128|vps[lr]lv\w|vpsravd|vpmaskmov\w|vpgather\w+)$")
X_SSE41 = re.compile(r"^(pblendw|pblendvb|pinsr[bdq]|pextr[bdq]|ptest|pmulld|pmuldq|pmovzx\w+|pmovsx\w+|packusdw|pcmpeqq|pmin[su][bdw]|pmax[su][bdw]|round[sp][sd])$")
X_SSSE3 = re.compile(r"^(pshufb|palignr|pmulhrsw|phadd\w+|pabs\w|psign\w|pmaddubsw)$")
X_SSE = re.compile(r"^(p(and|andn|or|xor|add[bwdq]|sub[bwdq]|mul\w+|cmp(eq|gt)[bwd]|sll\w*|srl\w*|sra\w*|shuf[dhl]w?|shufd|unpck\w+|ack\w+|movmskb|madd\w+|avg\w|sadbw|insrw|extrw)|mov(dq[au]|q|d|aps|ups|apd|upd|hpd|lpd|hps|lps|hlps|lhps|nti|ntdq)|xorp[sd]|andp[sd]|orp[sd]|shufp[sd]|unpck\w+|add[sp][sd]|mul[sp][sd])$")
# instructions of the base instruction set
X_PLAIN = re.compile(r"^(rep \w+|repz|mov|movabs|movzx|movsx|movsxd|lea|push|pop|add|adc|sub|sbb|mul|imul|div|neg|not|and|or|xor|inc|dec|cmp|test|sh[lr]d?|sa[rl]|ro[lr]|rc[lr]|b[ts]|bt[csr]|bs[fr]|bswap|xchg|cmov\w+|set\w+|j\w+|call|ret|nop|endbr64|cdq|cqo|clc|stc|cmc|lfence|mfence|sfence|prefetch\w*|cld|std)$")
A_SHA3 = re.compile(r"^(eor3|rax1|xar|bcax|sha512\w+)$")


def ins_features(n, ins, t):
    """the CPU features one instruction needs, or None when the mnemonic is unknown"""
    m = ins.m
    regs = []
    for o in ins.ops:
        r = re.match(r"\$(\d+)", o)
        if r and int(r.group(1)) < len(t["ops"]):
            regs.append(str(t["ops"][int(r.group(1))].get("reg")))
        else:
            regs.append(o)
    txt = " ".join(regs)
    if n == "x":
        if X_BMI2.match(m):
            return {"bmi2"}
        if m in ("adcx", "adox"):
            return {"adx"}
        if X_BMI1.match(m):
            return {"bmi1"}
        if m in ("popcnt", "movbe", "lzcnt"):
            return {m}
        if re.match(r"^aes\w+$", m):
            return {"aes"}
        if m == "pclmulqdq":
            return {"pclmulqdq"}
        if re.match(r"^sha(1|256)\w+$", m):
            return {"sha"}
        if m.startswith("v"):
            r = {"avx"}
            wide = re.search(r"\bzmm", txt)
            evex = re.search(r"\b[xyz]mm(1[6-9]|2\d|3[01])\b|\bk[0-7]\b|\{k", txt)
            if m.startswith("vaes"):
                r = {"vaes"} if re.search(r"\b[yz]mm", txt) else {"avx", "aes"}
            elif m == "vpclmulqdq":
                r = {"vpclmulqdq"} if re.search(r"\b[yz]mm", txt) else {"avx", "pclmulqdq"}
            elif X_AVX2.match(m) or m.startswith("vp") and re.search(r"\bymm", txt) or m == "vmovntdqa" and "ymm" in txt:
                r = {"avx2"}
            elif m.startswith("vfm") or m.startswith("vfn"):
                r = {"fma"}
            if wide or evex:
                r = r | {"avx512f"}
                if evex and not wide:
                    r |= {"avx512vl"}
                if re.match(r"^vp\w+[bw]$", m) or m in ("vmovdqu8", "vmovdqu16", "vpalignr"):
                    r |= {"avx512bw"}
            return r
        if X_SSE41.match(m):
            return {"sse4.1"}
        if X_SSSE3.match(m):
            return {"ssse3"}
        if X_PLAIN.match(m):
            return set()
        if X_SSE.match(m):
            return {"sse2"}
        return None
    if re.match(r"^aes(e|d|mc|imc)$", m):
        return {"aes"}
    if m in ("pmull", "pmull2") and ".1q" in txt:
        return {"pmull"}
    if re.match(r"^sha(1|256)\w+$", m):
        return {"sha2"}
    if A_SHA3.match(m):
        return {"sha3"}
    if re.match(r"^(mrs|msr)$", m):
        return {"dit"} if re.search(r"\bdit\b", ins.text, re.I) else None
    if re.match(r"^(sdot|udot|smmla|ummla|bf\w+|fcmla|ldadd\w*|swp\w*|cas\w*|rcpc|ldapr|sqrdml[as]h|paci\w+|autia\w*|crc32\w+)$", m):
        return None
    return {"neon"} if re.search(r"\b[vq]\d+|vreg", txt) else set()


def asm_blocks(f):
    for bi, b in enumerate(f["body"]["blocks"]):
        if isinstance(b["t"], dict) and b["t"].get("k") == "asm" and not b.get("cl"):
            yield bi, b["t"]


def detected(o):
    """features the facts of an outcome prove were detected at run time"""
    r = set()
    for t, v in o.st.facts.items():
        if v is TRUE and t.op == "call":
            m = re.search(r"__is_feature_detected::(\w+)$", str(t.a[0]))
            if m:
                r.add({"sse4_1": "sse4.1", "sse4_2": "sse4.2"}.get(m.group(1), m.group(1)))
    return r


class Features:
    def __init__(self, ctx, n, crate):
        self.ctx, self.n, self.crate = ctx, n, crate
        self.succ = call_graph(crate)
        det = set()
        for k, f in crate.fns.items():
            if f.get("local") and f.get("body") and any("__is_feature_detected::" in p for p in call_paths(f)):
                det.add(k)
        self.det = det
        self.paths = {f["path"] for k, f in crate.fns.items()}
        self.verify = [k for k in crate.fns if k.startswith("graviola::low::") and k.endswith("::verify_cpu_features")]
        self.req = None
        self.tok = {}
        self.pcache = {}

    def engine(self, keep=()):
        """an engine in which only feature detection (and `keep`) is looked into"""
        lo = {k for k in self.det} | {k for k in self.crate.fns if k.endswith("::test_toggle")} | set(keep)
        pa = {self.crate.fns[k]["path"] for k in lo if k in self.crate.fns}
        return self.ctx.engine(self.crate, opaque=lambda k, p: p.startswith("graviola") and k not in lo and p not in pa)

    def required(self):
        if self.req is None:
            r = None
            for k in self.verify:
                E = self.engine([k])
                outs, av = E.entry(k)
                self.ctx.done(E)
                for o in outs:
                    d = detected(o)
                    r = d if r is None else r & d
            self.req = closure(self.n, r or set())
        return self.req

    def tokens(self):
        """types of `low` whose every construction site is in a function that detects features: {path: features proven}"""
        if self.tok:
            return self.tok
        sites = {}
        for k, f in self.crate.fns.items():
            if not (f.get("body") and f.get("local")):
                continue
            for b in f["body"]["blocks"]:
                for s in b["s"]:
                    if isinstance(s, list) and s and s[0] == "=" and isinstance(s[2], list) and s[2][0] == "agg":
                        a = agg_adt(s[2])
                        if a and a.startswith("graviola::low::"):
                            sites.setdefault(a, set()).add(k)
        self.sites = sites
        for a, ks in sites.items():
            if not all(k in self.det for k in ks):
                continue
            r = None
            for k in ks:
                E = self.engine([k])
                outs, av = E.entry(k)
                self.ctx.done(E)
                for o in outs:
                    if has_adt(o.ret, a):
                        r = detected(o) if r is None else r & detected(o)
            if r is not None:
                self.tok[a] = closure(self.n, r)
        return self.tok

    def proves(self, ti, depth=6):
        """features proven by possession of a value of this type"""
        t = self.crate.types[ti]
        if depth == 0:
            return set()
        if t["k"] in ("ref", "ptr", "array", "slice"):
            return self.proves(t["e"], depth - 1) if t["k"] in ("ref",) else set()
        if t["k"] == "tuple":
            r = set()
            for x in t.get("es", ()):
                r |= self.proves(x, depth - 1)
            return r
        if t["k"] != "adt":
            return set()
        p = re.sub(r"<.*", "", t.get("path") or t["s"])
        if p in self.tokens():
            return self.tok[p]
        if (p, depth) in self.pcache:
            return self.pcache[(p, depth)]
        self.pcache[(p, depth)] = set()
        r = set()
        ad = self.crate.adts.get(p)
        if ad and p.startswith("graviola::"):
            per = []
            for v in ad["variants"]:
                q = set()
                for fl in v["fields"]:
                    if isinstance(fl.get("tyid"), int):
                        q |= self.proves(fl["tyid"], depth - 1)
                per.append(q)
            r = set.intersection(*per) if per else set()
        self.pcache[(p, depth)] = r
        return r

    def needs(self, k):
        """what the body of k executes directly: [(what, features, line, term)]"""
        f = self.crate.fns[k]
        r = []
        for bi, t in asm_blocks(f):
            ins, _ = A.parse(t)
            fs, unk = set(), []
            for i in ins:
                q = ins_features(self.n, i, t)
                if q is None:
                    unk.append(i.text)
                else:
                    fs |= q
            r.append(("inline assembly" if not unk else "inline assembly with unknown instruction `%s`" % unk[0], fs if not unk else None, t.get("line"), t))
        for c, t in call_sites(f):
            if c and c.get("tf"):
                r.append((c["key"], set(c["tf"]), t.get("line"), t))
        return r


def agg_adt(rv):
    return rv[2]["path"] if rv[1] == "adt" else None


def has_adt(t, a):
    if not isinstance(t, T):
        return False
    if t.op == "agg" and str(t.a[0]) == a:
        return True
    return any(has_adt(x, a) for x in t.a)


def C03(ctx):
    ctx.rule("required-set", "verify_cpu_features returns only on paths where CPU features were detected")
    ctx.rule("feature-token", "a feature token is constructed only where the features it stands for were detected")
    ctx.rule("feature-use", "an instruction, intrinsic or feature-gated function is used only where its CPU features are guaranteed: baseline, verified by Entry, enabled on the function (whose callers are checked), or proven by a token or a detection on the path")
    ctx.rule("entry-verifies", "both entry guard constructors verify the CPU before doing anything else")
    ctx.rule("verified-first", "an exported function that reaches code needing more than the baseline verifies the CPU first")
    for arch, crate in archs(ctx):
        guarded(ctx, "features/" + arch, features, arch, crate)


def features(ctx, arch, crate):
    n = "x" if "x86" in arch else "a"
    F = Features(ctx, n, crate)
    req = F.required()
    where = ctx.locate(crate, F.verify[0]) if F.verify else "graviola/src/low"
    ctx.ob("required-set", "verify_cpu_features/" + arch, bool(req), "verify_cpu_features returns without having detected any feature", where)
    ctx.counts["required features (%s)" % arch] = len(req)
    for a, fs in F.tokens().items():
        ctx.ob("feature-token", "%s/%s" % (a, arch), bool(fs), "%s can be constructed without detecting a feature" % a, "%s:%s" % (crate.adts[a]["file"], crate.adts[a]["line"]))
    ctx.floor("feature tokens (%s)" % arch, len(F.tokens()), 3 if n == "x" else 1)
    uses = spec = 0
    pend = {}
    F.reqdep = set()
    for k, f in sorted(crate.fns.items()):
        if not (f.get("body") and f.get("local")):
            continue
        args = set()
        for i in range(1, f["body"]["argc"] + 1):
            args |= F.proves(f["body"]["locals"][i][0])
        own = closure(n, BASE[n] | set(f.get("tf") or ()) | args)
        need = {}
        for what, fs, line, t in F.needs(k):
            uses += 1
            got = own
            if fs is not None and not fs <= own and t.get("k") == "call":
                for a in t["args"]:
                    ti = operand_ty(crate, f, a)
                    if ti is not None:
                        got = got | F.proves(ti)
                spec += fs <= closure(n, got)
            if fs is not None and fs <= closure(n, got):
                continue
            if fs is not None and fs <= closure(n, got | req):
                spec += not fs <= closure(n, own | req)
                F.reqdep.add(k)
                continue
            need[(what, line)] = fs, got
        if not need:
            continue
        # a detection on the path
        E = F.engine([k])
        outs, av = E.entry(k)
        ctx.done(E)
        for (what, line), (fs, have) in need.items():
            spec += 1
            seen, bad = 0, None
            for o in outs:
                if not used_in(o, k, what, line):
                    continue
                seen += 1
                if fs is not None and fs <= closure(n, have | detected(o)):
                    continue
                F.reqdep.add(k)
                if fs is None or not fs <= closure(n, have | req | detected(o)):
                    bad = sorted((fs or set()) - closure(n, have | req | detected(o))) or ["unknown instruction"]
            if not seen or bad:
                pend[(k, what, line)] = (fs, bad or ["the use was not found on any analysed path"])
    # what is not proven locally may be proven for the guard's own life cycle: leaving undoes only what entering did
    if pend:
        life = lifecycle(ctx, F, crate, {w for _, w, _ in pend})
        for (k, what, line), (fs, bad) in list(pend.items()):
            us = [(x, o) for x, o in life if used_in(o, k, what, line)]
            if us and fs is not None and all(fs <= closure(n, BASE[n] | req | detected(o)) and only_from(F, k, x) for x, o in us):
                pend[(k, what, line)] = (fs, None)
    for (k, what, line), (fs, bad) in pend.items():
        ctx.ob("feature-use", "%s:%s/%s" % (k, short(what), arch), not bad, "%s uses %s, but nothing guarantees the CPU has: %s" % (short(k), short(what), ", ".join(bad or ())), "%s:%s" % (crate.fns[k]["file"], line))
    ctx.ob("feature-use", "baseline and verified uses/" + arch, True)
    ctx.floor("feature uses (%s)" % arch, uses, 200 if n == "x" else 150)
    ctx.floor("token- or detection-guarded uses (%s)" % arch, spec, 3 if n == "x" else 4)
    entries(ctx, F, arch, crate)
    G = Guards(crate, "any")
    G.features = F
    m = 0
    for k, f, args, ret in api_fns(crate):
        if not G.computes(k):
            continue
        m += 1
        bad = G.protected(k)
        w = "%s:%s" % (f["file"], bad[0][0] if bad else f["line"])
        ctx.ob("verified-first", "%s/%s" % (k, arch), not bad, "%s reaches code that needs verified CPU features without an entry guard: %s" % (f["path"], "; ".join("%s at line %s" % (b[1], b[0]) for b in bad[:3])), w)
    ctx.floor("exported functions reaching feature-dependent code (%s)" % arch, m, 50)


def operand_ty(crate, f, a):
    """type of an operand that is a plain local (possibly a copy of one)"""
    if a[0] in ("m", "c") and not a[1][1]:
        return f["body"]["locals"][a[1][0]][0]
    return None


def used_in(o, k, what, line):
    for t, info in o.st.ev.items():
        if t.op != "call":
            continue
        if what.startswith("inline assembly"):
            if t.a[0] == "asm" and isinstance(info, tuple) and info == (k, line):
                return True
        elif str(t.a[0]) == what or what.startswith(str(t.a[0]) + "::<"):
            return True
    return False


def lifecycle(ctx, F, crate, stop=()):
    """outcomes of dropping a value made by each guard constructor, with the constructor's facts"""
    ent = entry_ty(crate)
    if not ent:
        return []
    drop = crate.adts[ent]["dtor"]
    reach = called(F, [drop] + makers(crate, ent))
    r = []
    E = F.engine([k for k in reach if low_rust(crate, k) and k not in stop])
    for mk_ in makers(crate, ent):
        outs, av = E.entry(mk_)
        for o in outs:
            def setup(st, av2, o=o):
                st.mem[("S", av2[0].a[0][1])] = o.ret
                for t, v in o.st.facts.items():
                    E.assume(st, t, v.a[0] if isint(v) else v)
            for q in E.entry(drop, setup=setup)[0]:
                r.append((drop, q))
    ctx.done(E)
    return r


def low_rust(crate, k):
    f = crate.fns.get(k)
    return bool(f and f.get("body") and f.get("local") and k.lstrip("<").startswith("graviola::low::"))


def makers(crate, ent):
    """functions that construct the entry guard"""
    r = []
    for k, f in crate.fns.items():
        if f.get("body") and f.get("local") and any(isinstance(s, list) and s[0] == "=" and s[2][0] == "agg" and agg_adt(s[2]) == ent for b in f["body"]["blocks"] for s in b["s"]):
            r.append(k)
    return sorted(r)


def called(F, ks):
    seen, st = set(), list(ks)
    while st:
        x = st.pop()
        if x not in seen:
            seen.add(x)
            st.extend(F.succ(x))
    return seen


def only_from(F, k, root):
    """k is reached only through root's call tree"""
    inside = called(F, [root])
    if not hasattr(F, "pred"):
        F.pred = {}
        for x in F.crate.fns:
            for y in F.succ(x):
                F.pred.setdefault(y, set()).add(x)
    seen, st = set(), [k]
    while st:
        x = st.pop()
        if x in seen or x == root:
            continue
        seen.add(x)
        if x not in inside:
            return False
        st.extend(F.pred.get(x, ()))
    return True


def entries(ctx, F, arch, crate):
    ent = entry_ty(crate)
    ms = makers(crate, ent) if ent else []
    ctx.floor("entry guard constructors (%s)" % arch, len(ms), 2)
    for k in ms:
        E = F.engine([k] + F.verify)
        outs, av = E.entry(k)
        ctx.done(E)
        for o in outs:
            miss = F.req - closure(F.n, BASE[F.n] | detected(o))
            ctx.ob("entry-verifies", "%s/%s" % (k, arch), not miss, "%s makes a guard without verifying: %s" % (short(k), ", ".join(sorted(miss))), ctx.locate(crate, k))


def C04(ctx):
    ctx.rule("secret-entry", "an exported function whose arguments or result contain a secret does all its computing while a secret entry guard is alive, or inside a function that does")
    ctx.rule("scrub-on-drop", "dropping a secret entry guard clears every vector register (zmm16-31 too unless the CPU was found not to support the code that uses them)")
    ctx.rule("dit", "making a secret entry guard leaves DIT enabled on a CPU that has it")
    ctx.rule("dit-restore", "dropping the guard disables DIT exactly when making it enabled it")
    S = Secrets(ctx)
    for arch, crate in archs(ctx):
        G = Guards(crate, "secret")
        n = 0
        for k, f, args, ret in api_fns(crate):
            sec = [s for s in args + [ret] if S.ty_secret(s)]
            if not sec or not G.computes(k):
                continue
            n += 1
            bad = G.protected(k)
            w = "%s:%s" % (f["file"], bad[0][0] if bad else f["line"])
            ctx.ob("secret-entry", "%s/%s" % (k, arch), not bad, "%s handles %s but computes without a live secret entry guard: %s" % (f["path"], sec[0], "; ".join("%s at line %s" % (b[1], b[0]) for b in bad[:3])), w)
        ctx.floor("secret-handling exported functions (%s)" % arch, n, 50)
        guarded(ctx, "scrub/" + arch, scrub, arch, crate)


VREG = re.compile(r"^([xyz]mm|[vq])(\d+)(\.\w+)?$")


def cleared(arch, t):
    """vector registers an assembly block leaves cleared; None if it is not straight-line code"""
    ins, labels = A.parse(t)
    x86 = arch.startswith("x86")
    if labels or any(A.branchy(i, arch[0]) for i in ins):
        return None
    r = set()
    for i in ins:
        ops = [VREG.match(o) for o in i.ops]
        if x86 and i.m == "vzeroall":
            r |= set(range(16))
        elif ops and ops[0]:
            same = len(ops) == 3 and all(ops) and ops[1].group(2) == ops[2].group(2)
            d = int(ops[0].group(2))
            if x86 and (same and re.match(r"^vpxor[dq]?$|^vxorp[sd]$", i.m)) or not x86 and (same and i.m == "eor" or i.m == "movi" and A.imm(i.ops[-1]) == 0):
                r.add(d)
            else:
                r.discard(d)
    return r


def scrub(ctx, arch, crate):
    """what dropping a secret guard does"""
    n = "x" if "x86" in arch else "a"
    F = Features(ctx, n, crate)
    F.required()
    ent = entry_ty(crate)
    if not ent:
        ctx.ob("scrub-on-drop", "entry guard/" + arch, False, "no type whose drop runs leave_cpu_state was found", "graviola/src/low/entry.rs")
        return
    drop = crate.adts[ent]["dtor"]
    ms = makers(crate, ent)
    reach = called(F, [drop] + ms)
    keep = [k for k in reach if low_rust(crate, k) and not k.endswith("::test_toggle")]
    wide = [fs for a, fs in F.tokens().items() if "avx512f" in fs]
    secret = 0
    for m in ms:
        E = F.engine(keep)
        outs, av = E.entry(m)
        scrubs = []
        for o in outs:
            def setup(st, av2, o=o):
                st.mem[("S", av2[0].a[0][1])] = o.ret
                for t, v in o.st.facts.items():
                    E.assume(st, t, v.a[0] if isint(v) else v)
            for q in E.entry(drop, setup=setup)[0]:
                got, dit = set(), []
                for t, info in q.st.ev.items():
                    if t.op == "call" and t.a[0] == "asm":
                        a = asm_at(crate, info)
                        c = cleared(arch, a) if a else None
                        if c:
                            got |= c
                        dit += dit_ops(a)
                need = set(range(32))
                if n == "x" and not any(possible(q, fs) for fs in wide):
                    need = set(range(16))
                scrubs.append((o, q, got, need, dit))
        if not any(g or d for _, _, g, _, d in scrubs):
            continue  # a guard for public functions
        secret += 1
        site = "%s/%s" % (m, arch)
        for o, q, got, need, dit in scrubs:
            miss = sorted(need - got)
            ctx.ob("scrub-on-drop", site, not miss, "dropping the guard made by %s leaves vector registers %s uncleared on a path" % (short(m), ", ".join(map(str, miss))), ctx.locate(crate, drop))
            if n == "a":
                on = []
                for t, info in o.st.ev.items():
                    if t.op == "call" and t.a[0] == "asm":
                        on += dit_ops(asm_at(crate, info))
                have = "dit" in detected(o)
                already = dit_was_on(crate, o)
                ctx.ob("dit", site, not have or already or (on and on[-1] == 1), "%s does not enable DIT on a CPU that has it" % short(m), ctx.locate(crate, m))
                # leaving restores what entering changed, and nothing else
                ctx.ob("dit-restore", site, (dit == [0]) == bool(on and on[-1] == 1) and (not dit or dit == [0]), "dropping the guard made by %s does not restore the DIT state that making it changed" % short(m), ctx.locate(crate, drop))
        ctx.done(E)
        # facts of a value made outside the constructor cannot occur: the fields are private to the guard's module
    ctx.floor("secret guard constructors (%s)" % arch, secret, 1)
    kinds = Guards(crate, "secret")
    for m in ms:
        want = "secret" if m.endswith("new_secret") else None
        if want:
            ctx.ob("scrub-on-drop", "%s is secret/%s" % (m, arch), kinds.makes_guard(m) == "secret", "", ctx.locate(crate, m))


def possible(q, fs):
    """could a CPU on which every feature of fs was detected take this path?"""
    for t, v in q.st.facts.items():
        if v is FALSE and t.op == "call":
            m = re.search(r"__is_feature_detected::(\w+)$", str(t.a[0]))
            if m and m.group(1) in fs:
                return False
    return True


def asm_at(crate, info):
    k, line = info
    f = crate.fns.get(k)
    if f:
        for _, t in asm_blocks(f):
            if t.get("line") == line:
                return t
    return None


def dit_ops(t):
    r = []
    if t:
        for i in A.parse(t)[0]:
            if i.m == "msr" and i.ops and i.ops[0].lower() == "dit":
                r.append(A.imm(i.ops[1]))
    return r


def dit_was_on(crate, o):
    """a fact that the DIT bit (24) of the value read by `mrs _, DIT` is set"""
    for t, v in o.st.facts.items():
        if v is not TRUE or t.op != "eq":
            continue
        for x, y in (t.a, t.a[::-1]):
            if isint(y) and y.a[0] == 1 << 24 and isinstance(x, T) and x.op == "bin" and "BitAnd" in str(x.a[0]) and any(isint(z) and z.a[0] == 1 << 24 for z in x.a[1:]):
                for z in x.a[1:]:
                    b = z
                    while isinstance(b, T) and b.op == "prj":
                        b = b.a[0]
                    if isinstance(b, T) and b.op == "call" and b.a[0] == "asm":
                        a = asm_at(crate, o.st.ev.get(b, (None, None)))
                        if a and any(i.m == "mrs" and i.ops[-1].lower() == "dit" for i in A.parse(a)[0]):
                            return True
    return False
