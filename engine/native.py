"""Native side of the obligations: replay of counterexamples on the real code
and the bounded random search (stand-in where the verifier gives no answer)."""
import os, re
from concurrent.futures import ThreadPoolExecutor
from .common import *

BIN = {}


def build(features=()):
    key = tuple(features)
    if key in BIN:
        return BIN[key]
    td = os.path.join(BUILD, "native" + "".join("-" + f for f in features))
    cmd = ["cargo", "build", "--release", "--offline", "--bin", "replay", "--target-dir", td]
    if features:
        cmd += ["--features", ",".join(features)]
    rc, out, _ = sh(cmd, cwd=OBL, timeout=600)
    if rc != 0:
        BIN[key] = None
        return None if features else (_ for _ in ()).throw(RuntimeError("native build failed:\n" + out[-4000:]))
    BIN[key] = os.path.join(td, "release", "replay")
    return BIN[key]


def listing(b):
    rc, out, _ = sh([b, "list"], timeout=60)
    return [l.split() for l in out.splitlines() if l]


def run(b, obl, hexs):
    """returns ('HOLDS'|'VACUOUS'|'FAILS'|'CRASH', text)"""
    rc, out, _ = sh([b, "run", obl, hexs or "00"], timeout=120)
    w = out.split(None, 1)
    if w and w[0] in ("HOLDS", "VACUOUS", "FAILS"):
        return w[0], out.strip()
    return "CRASH", f"rc={rc} {out[-500:]}"


def search(b, obls, secs, seed):
    """bounded search: {obl: (failure or None, hex or None, tried)}"""
    res = {}

    def one(o):
        rc, out, _ = sh([b, "search", o, str(seed), str(secs)], timeout=secs * 4 + 60)
        m = re.search(r"FAILS (\S*) ?(.*)", out)
        if m:
            return o, (m.group(2), m.group(1), 0)
        m = re.search(r"NONE tried=(\d+) vacuous=(\d+)", out)
        if m:
            return o, (None, None, int(m.group(1)) - int(m.group(2)))
        m = re.search(r"INPUT (\S*)", out)
        return o, (f"process ended with {rc}: {out[-300:]}", m.group(1) if m else None, 0)

    with ThreadPoolExecutor(8) as ex:
        for o, r in ex.map(one, obls):
            res[o] = r
    return res
