"""Kani back end: every obligation is a proof harness over the real code; CBMC
generates one verification condition per assertion / panic / overflow / bounds
check and CaDiCaL discharges it.  Loops are unrolled to a constant with the
unwinding assertion on, so an accepted harness is an unbounded-input proof."""
import json, os, re
from .common import *
from . import native

GOOD = ("SUCCESS", "UNREACHABLE", "SATISFIED")
# these are limits of the verification, not statements about the code
LIMIT = ("unwinding assertion", "recursion unwinding", "is not currently supported by Kani", "unsupported")


def verify(harnesses, tag, timeout, jobs=8, extra=(), budget=None):
    """{harness: dict(status=proved|failed|undecided, ...)}"""
    td = os.path.join(BUILD, "kani-" + tag)
    os.makedirs(td, exist_ok=True)
    jf = os.path.join(td, "out.json")
    if os.path.exists(jf):
        os.remove(jf)
    cmd = ["cargo", "kani", "--lib", "-j", str(jobs), "--output-format=terse", "-Z", "unstable-options",
           "--no-assertion-reach-checks", "--target-dir", td, "--harness-timeout", str(int(timeout)),
           "--export-json", jf] + list(extra)
    for h in harnesses:
        cmd += ["--harness", h]
    rc, out, secs = sh(cmd, cwd=OBL, timeout=budget or left())
    res = {h: dict(status="undecided", reason="no answer from the verifier", checks=0, ok=0, secs=0.0, failed=[]) for h in harnesses}
    try:
        d = json.load(open(jf))["verification_results"]["results"]
    except Exception:
        for h in harnesses:
            res[h]["reason"] = "verifier run did not finish: " + out[-1500:]
        return res, out
    for r in d:
        name = r["harness_id"].split("::")[-1]
        if name not in res:
            continue
        x = res[name]
        cs = r.get("checks", [])
        x["secs"] = r.get("duration_ms", 0) / 1000.0
        x["checks"] = len(cs)
        x["ok"] = sum(c["status"].upper() in GOOD for c in cs)
        bad = [c for c in cs if c["status"].upper() not in GOOD]
        real = [c for c in bad if c["status"].upper() == "FAILURE" and not any(l in (c.get("description") or "") for l in LIMIT)]
        covers = [c for c in cs if "reached" == (c.get("description") or "").strip('"')]
        if r["status"].upper() == "SUCCESS" and not bad and cs:
            if covers and all(c["status"].upper() == "SATISFIED" for c in covers):
                x["status"] = "proved"
            else:
                x["reason"] = "vacuous: the end of the harness is not reachable"
        elif real:
            x["status"] = "failed"
            x["failed"] = [dict(description=c.get("description"), location=c.get("location"), category=c.get("category")) for c in real]
        else:
            x["reason"] = f"{r['status']}: " + ("; ".join(sorted({str(c.get('description')) for c in bad}))[:400] or "timeout or solver failure")
    return res, out


def counterexample(h, tag, timeout):
    """hex input bytes of the verifier's counterexample, or None"""
    td = os.path.join(BUILD, "kani-cex-" + tag)
    cmd = ["cargo", "kani", "--lib", "-Z", "unstable-options", "-Z", "concrete-playback", "--concrete-playback=print",
           "--no-assertion-reach-checks", "--no-slice-formula",
           "--target-dir", td, "--harness-timeout", str(int(timeout)), "--harness", h]
    rc, out, secs = sh(cmd, cwd=OBL, timeout=timeout + 120)
    cands = []
    for m in re.finditer(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S):
        vals = []
        for v in re.findall(r"vec!\[([\d,\s]*)\]", m.group(1)):
            vals += [int(x) for x in v.replace(" ", "").split(",") if x]
        cands.append(bytes(vals).hex())
    return cands, out
