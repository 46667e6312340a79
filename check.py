#!/usr/bin/env python3
"""check.py <property>: decide one property for /repo's working tree.

exit 0: every obligation discharged (or, where the verifier gave no answer,
        the bounded stand-in found nothing; the evidence file says which)
exit 1: a line  VIOLATION property=<id> replay=<path> [no-failing-input-found]
"""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine.common import *
from engine import native, kani
from engine.props import P, COMMON_ASSUMPTIONS

pid = sys.argv[1]
cfg = P[pid]
EV = os.path.join(VERIF, "evidence")
os.makedirs(EV, exist_ok=True)
os.makedirs(BUILD, exist_ok=True)


def known():
    """findings of this property that are recorded and not repaired: (obligation, text)"""
    r = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        l = l.strip()
        if l.startswith(f"finding: property={pid} "):
            r.append(l.split(" ", 2)[2])
    return r


def main():
    notes, violations = [], []
    failed = []       # failed obligations for which the verifier gives no input
    obligations = discharged = 0
    per = []          # one record per obligation
    undecided = []
    solver = 0.0
    binp = native.build()

    def violation(name, backend, why, hexin, text):
        path = os.path.join(EV, f"{pid}-{name}.replay.txt")
        with open(path, "w") as f:
            f.write(f"property {pid}\nobligation {name}\nback end {backend}\nfailed {why}\n")
            if hexin is not None:
                f.write(f"input {hexin}\nreplay: (cd {OBL} && cargo run --release --offline --bin replay -- run {name} {hexin})\n")
            f.write(text + "\n")
        violations.append((name, path, hexin is not None))

    # --- Kani -----------------------------------------------------------
    hs = cfg.get("kani", [])
    if hs:
        res, out = kani.verify(hs, pid, cfg.get("timeout", 300) * (4 if TIER == "thorough" else 1), jobs=cfg.get("jobs", 8))
        for h in hs:
            r = res[h]
            solver += r["secs"]
            obligations += r["checks"]
            discharged += r["ok"]
            rec = dict(obligation=h, back_end="kani/cbmc/cadical", status=r["status"], checks=r["checks"], discharged=r["ok"], seconds=r["secs"])
            if r["status"] == "undecided":
                rec["reason"] = r["reason"]
                undecided.append(h)
            per.append(rec)
            if r["status"] == "failed":
                rec["failed"] = r["failed"][:5]
                why = "; ".join(str(f["description"]) for f in r["failed"][:5])
                hexin, log, text = None, "", ""
                if left() > 60:
                    cands, log = kani.counterexample(h, pid, min(300, left()))
                    for c in cands:
                        st, t = native.run(binp, h, c)
                        if st in ("FAILS", "CRASH"):
                            hexin, text = c, t
                            break
                if hexin is None:
                    f, hx, _ = native.search(binp, [h], 20, SEED)[h]
                    if f is not None:
                        hexin, text = hx, f
                violation(h, "kani", why, hexin, text + "\n\nverifier output:\n" + json.dumps(r["failed"], indent=1) + "\n" + log[-6000:])

    # --- further back ends ------------------------------------------------
    for eng in cfg.get("engines", []):
        for rec in eng(dict(pid=pid, left=left, binp=binp)):
            obligations += rec["checks"]
            discharged += rec["discharged"]
            solver += rec.get("seconds", 0)
            per.append(rec)
            if rec["status"] == "undecided":
                undecided.append(rec["obligation"])
            elif rec["status"] == "failed":
                if rec.get("input") is None:
                    failed.append(rec)
                else:
                    violation(rec["obligation"], rec["back_end"], rec.get("reason", ""), rec.get("input"), rec.get("text", ""))

    # --- replay search on the real code (bounded; never counted as proved) --
    names = [n for p, n in native.listing(binp) if p == pid]
    names = [n for n in names if not any(v[0] == n for v in violations)]
    secs = cfg.get("search", 2.0) if TIER == "quick" else 60
    if undecided or failed or cfg.get("bounded"):
        secs = max(secs, cfg.get("standin", 20))
    tried = 0
    hits = {}
    for n, (f, hx, k) in native.search(binp, names, secs, SEED).items():
        tried += k
        if f is not None:
            hits[n] = (f, hx)
    for r in failed:
        text = "\n\nverifier output:\n" + r.get("text", "")
        if hits:
            n = next(iter(hits))
            f, hx = hits.pop(n)
            # the failed contract, with an input of the real code that shows it
            violation(n, r["back_end"] + ": contract of " + r["obligation"], r.get("reason", ""), hx, f + text)
        elif violations and any(v[2] for v in violations):
            notes.append(f"FAILED {r['obligation']}: {r.get('reason', '')[:300]}")
        elif r.get("decisive", True):
            violation(r["obligation"], r["back_end"], r.get("reason", ""), None, text)
        else:
            # an auxiliary step of the proof no longer goes through; nothing says the property is broken
            r["status"] = "undecided"
            undecided.append(r["obligation"])
    for n, (f, hx) in hits.items():
        violation(n, "replay search on the compiled crate", f, hx, f)

    proved = not undecided and not cfg.get("bounded") and not violations
    for u in per:
        if u["status"] == "undecided":
            notes.append(f"UNDECIDED {u['obligation']}: {u.get('reason', '')[:300]} (bounded replay search stands in)")
    from engine.common import T0
    ev = dict(
        property=pid, tier=TIER, seed=SEED, level=cfg.get("level", "proof") if proved or violations else "other",
        coverage=dict(
            obligations=obligations, discharged=discharged,
            checker_cmd=f"python3 /verif/check.py {pid}",
            trusted_base=["kani 0.68 / cbmc 6.11 / cadical"] * bool(hs) + cfg.get("trusted", []),
            functions_under_contract=cfg["functions"],
            per_obligation=per, solver_seconds=round(solver, 1),
            undecided=undecided, bounded_parts=cfg.get("bounded_parts", []),
            replay_search_inputs=tried,
            explanation="obligations counts the verification conditions the back ends generated from the current source; "
                        "replay_search_inputs is a bounded search on the compiled code and is not part of the proof",
        ),
        assumptions=COMMON_ASSUMPTIONS + cfg.get("assumptions", []),
        wall_s=round(time.time() - T0, 1), violations=len(violations), notes=notes)
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)

    for n in notes:
        print(n)
    print(f"{pid}: {discharged}/{obligations} verification conditions discharged, {len(undecided)} obligations undecided, "
          f"{tried} replay inputs, {round(time.time()-T0)} s")
    for k in known():
        print(f"KNOWN-FINDING: property={pid} {k}")
    for name, path, found in violations:
        print(f"VIOLATION property={pid} replay={path}" + ("" if found else " no-failing-input-found"))
    return 1 if violations else 0


try:
    rc = main()
except Exception:
    traceback.print_exc()
    rc = 2
sys.exit(rc)
