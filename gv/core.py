"""Check framework: obligations, known findings, evidence, exit codes."""
import json, os, re, resource, signal, sys, time, traceback
from .engine import *
from .facts import HERE

KNOWN = os.path.join(HERE, "known-findings.txt")


def known_findings():
    """lines: `finding: property=<id> key=<exact key> :: <what fails>` (suppress by exact key); `fixed: ...` lines suppress nothing"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m:
                r[(m.group(1), m.group(2))] = m.group(3)
    return r


class Ctx:
    def __init__(self, pid, facts, tier, seed):
        self.pid = pid
        self.f = facts
        self.tier = tier
        self.seed = seed
        self.obs = []
        self.viol = {}
        self.counts = {}
        self.analysed = set()
        self.rules = {}
        self.opaque = {}
        self.undecided = []

    # ---- crates
    @property
    def x(self):
        return self.f["x"]

    @property
    def a(self):
        return self.f["a"]

    @property
    def r(self):
        return self.f["r"]

    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, rule, site, ok, detail="", where=""):
        """one obligation: rule applied to one site; a failed obligation is a violation keyed rule@site"""
        self.obs.append((rule, site, bool(ok)))
        if not ok:
            k = "%s@%s" % (rule, site)
            if k not in self.viol:
                self.viol[k] = (rule, site, detail, where)
        return bool(ok)

    def floor(self, name, n, least):
        """instance counts confirmed by hand: fewer means the rule no longer sees the code"""
        self.counts[name] = n
        self.ob("coverage-floor", name, n >= least, "only %d instance(s) of %s found, %d expected: the rule no longer sees the code it must decide" % (n, name, least))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def engine(self, crate, **kw):
        E = Engine(crate, **kw)
        E.ctx = self
        return E

    def done(self, E):
        self.analysed |= E.analysed
        for k, v in E.seen_opaque.items():
            self.opaque[k] = self.opaque.get(k, 0) + v

    def locate(self, crate, key):
        f = crate.fns.get(key)
        return "%s:%s" % (f["file"], f["line"]) if f else "?"


class Budget(BaseException):
    """time for this part of the analysis is used up"""


PART_S, TOTAL_S, MEM = int(os.environ.get("GV_PART", 240)), 720, 14 << 30
_deadline = None


def _alarm(*_):
    raise Budget("time")


def limited(ctx, name, fn, *a):
    """run fn within its time; what it could not decide is reported as undecided: neither a pass nor a violation"""
    left = min(PART_S, _deadline - time.time()) if _deadline else PART_S
    try:
        if left <= 0:
            raise Budget("time")
        if _deadline:
            signal.setitimer(signal.ITIMER_REAL, left)
        fn(ctx, *a)
    except (Exception, Budget) as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.undecided.append((name, "%s: %s" % (type(e).__name__, str(e)[:200]), traceback.format_exc(limit=-4)[-900:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, max(1, _deadline - time.time()) if _deadline else 0)


def guarded(ctx, name, fn, *a):
    limited(ctx, name, fn, *a)


def main(pid, modules, trusted, level="other"):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from . import facts as Fm
    mod = modules[pid]
    mode = getattr(mod, "MODE", {}).get(pid, "all")
    fx = Fm.load(mode)
    t1 = time.time()
    ctx = Ctx(pid, fx, tier, seed)
    global _deadline
    _deadline = time.time() + TOTAL_S
    signal.signal(signal.SIGALRM, _alarm)
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    try:
        signal.setitimer(signal.ITIMER_REAL, TOTAL_S)
        getattr(mod, pid)(ctx)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except (Exception, Budget) as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.undecided.append(("the rest", "%s: %s" % (type(e).__name__, str(e)[:200]), traceback.format_exc(limit=-4)[-900:]))
    if not ctx.obs and not ctx.undecided:
        ctx.ob("coverage-floor", "obligations", False, "no obligation was generated")
    kf = known_findings()
    viol, known = [], []
    for k, v in ctx.viol.items():
        if (pid, k) in kf:
            known.append((k, kf[(pid, k)]))
        else:
            viol.append((k, v))
    rules = {}
    for r, s, ok in ctx.obs:
        d = rules.setdefault(r, [0, 0])
        d[0] += 1
        d[1] += ok
    samples = [{"rule": r, "site": s, "holds": ok} for r, s, ok in ctx.obs[:: max(1, len(ctx.obs) // 12)]][:14]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": "Static analysis of the MIR, types, statics and inline assembly of /repo's current tree; nothing is executed. "
                           "Each obligation is one rule applied to one construct (function, path outcome, type, call site, table entry).",
            "obligations": len(ctx.obs),
            "discharged": sum(1 for o in ctx.obs if o[2]),
            "per_rule": {r: {"obligations": d[0], "discharged": d[1], "rule": ctx.rules.get(r, "")} for r, d in rules.items()},
            "counts": ctx.counts,
            "functions_analysed": len(ctx.analysed),
            "functions_sample": sorted(ctx.analysed)[:25],
            "bodies_loaded": {k: sum(1 for f in c.fns.values() if f.get("body")) for k, c in fx.items()},
            "opaque_primitives": dict(sorted(ctx.opaque.items(), key=lambda x: -x[1])[:40]),
            "undecided": ["%s: %s" % (n, w) for n, w, _ in ctx.undecided],
            "samples": samples,
            "known_findings": [k for k, _ in known],
        },
        "assumptions": trusted,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d functions analysed (%.1fs extract, %.1fs analyse)" % (
        pid, len(ctx.obs), ev["coverage"]["discharged"], len(ctx.analysed), t1 - t0, time.time() - t1))
    for n, w, tb in ctx.undecided:
        print("UNDECIDED: %s: %s" % (n, w))
        if os.environ.get("GV_TRACE"):
            print(tb)
    for k, w in known:
        print("KNOWN-FINDING: property=%s %s [%s]" % (pid, w, k))
    if viol:
        rp = os.path.join(HERE, "evidence", pid + ".violations.txt")
        with open(rp, "w") as f:
            for k, (rule, site, detail, where) in viol:
                s = "[%s] %s\n    at: %s\n    rule: %s\n    %s\n" % (pid, k, where or site, ctx.rules.get(rule, rule), detail)
                f.write(s)
                print(s)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0
