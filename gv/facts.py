"""Load the fact files written by the extractor (driver/driver.rs) for one run."""
import json, os, subprocess, sys, tempfile, shutil

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Crate:
    def __init__(self, path):
        d = json.load(open(path))
        self.name = d["crate"]
        self.arch = d["arch"]
        self.types = d["types"]
        self.fns = d["fns"]
        self.promoted = d.get("promoted", {})
        self.adts = d["adts"]
        self.impls = d["impls"]
        self.traits = d.get("traits", {})
        self.statics = d["statics"]
        self.consts = d["consts"]
        self.exports = d["exports"]
        self.raw = d

    def ty(self, i):
        return self.types[i]

    def bodies(self, local=True):
        for k, f in self.fns.items():
            if f.get("body") and (f["local"] or not local):
                yield k, f


def load(mode="all"):
    """Extract facts from /repo's current tree; returns dict with 'x' (x86_64 graviola), 'a' (aarch64), 'r' (rustls)."""
    pre = os.environ.get("GV_FACTS")
    out = pre or tempfile.mkdtemp(prefix="gvfacts.")
    try:
        if not pre:
            p = subprocess.run(["bash", os.path.join(HERE, "facts.sh"), out, mode], capture_output=True, text=True)
            if p.returncode != 0:
                sys.stderr.write(p.stdout + p.stderr)
                raise SystemExit("fact extraction failed (does /repo build?)")
        r = {"x": Crate(os.path.join(out, "graviola-x86_64.json")), "r": Crate(os.path.join(out, "rustls_graviola-x86_64.json"))}
        if mode == "all":
            r["a"] = Crate(os.path.join(out, "graviola-aarch64.json"))
        return r
    finally:
        if not pre:
            shutil.rmtree(out, ignore_errors=True)
