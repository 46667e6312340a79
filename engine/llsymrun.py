"""Driver of the LLVM-level verifier: builds the IR of the obligations and of
/repo's crate, distributes the paths over processes and reports per obligation.

  python3-vt -m engine.llsymrun SPEC.json   (SPEC: list of [obligation, n or null], seconds, ir files)
"""
import json, os, sys, time, glob
from .common import *

IRFLAGS = ("--emit=llvm-ir -Ccodegen-units=1 -Copt-level=2 -Cno-vectorize-loops -Cno-vectorize-slp "
           "-Coverflow-checks=on -Cdebug-assertions=off -Cpanic=abort")


def build_ir(td=None):
    td = td or os.path.join(BUILD, "ll")
    deps = os.path.join(td, "debug", "deps")
    for f in glob.glob(os.path.join(deps, "*.ll")):
        os.remove(f)
    # cargo does not see that its outputs are gone: make it rebuild both crates
    for d in glob.glob(os.path.join(td, "debug", ".fingerprint", "*")):
        n = os.path.basename(d)
        if n.startswith(("obl-", "texture2ddecoder-")):
            import shutil
            shutil.rmtree(d)
    rc, out, _ = sh(["cargo", "+stable", "build", "--offline", "--lib", "--features", "llsym", "--target-dir", td],
                    cwd=OBL, timeout=600, extra=dict(CARGO_PROFILE_DEV_DEBUG="0", RUSTFLAGS=IRFLAGS))
    if rc != 0:
        raise RuntimeError("IR build failed:\n" + out[-3000:])
    fs = [f for f in glob.glob(os.path.join(deps, "*.ll")) if os.path.basename(f).startswith(("obl-", "texture2ddecoder-"))]
    if len(fs) != 2:
        raise RuntimeError("IR files: " + str(fs))
    return fs


def engine(obls, secs=None):
    """obls: list of (name, number of values of the first choose, or None)"""
    def go(ctx):
        budget = min(ctx["left"]() - 120, secs or 600)
        if TIER == "thorough":
            budget *= 4
        try:
            fs = build_ir()
        except RuntimeError as e:
            return [dict(obligation=o, back_end="llsym", status="undecided", reason=str(e)[:500], checks=0, discharged=0, seconds=0) for o, n in obls]
        spec = os.path.join(BUILD, f"llsym-{ctx['pid']}.json")
        json.dump(dict(obls=obls, secs=budget, ir=fs, jobs=8), open(spec, "w"))
        rc, out, t = sh(["python3-vt", "-m", "engine.llsymrun", spec], cwd=VERIF, timeout=budget + 90,
                        extra=dict(MALLOC_MMAP_THRESHOLD_="1073741824", MALLOC_TRIM_THRESHOLD_="4294967296", MALLOC_TOP_PAD_="67108864"))
        try:
            res = json.loads(out[out.index("@@RESULT") + 8:])
        except ValueError:
            return [dict(obligation=o, back_end="llsym", status="undecided", reason="no answer: " + out[-500:], checks=0, discharged=0, seconds=0) for o, n in obls]
        from . import native
        for r in res:
            if r["status"] == "failed":
                # the counterexample must reproduce on the compiled crate
                st, text = native.run(ctx["binp"], r["obligation"], r.get("input"))
                if st in ("FAILS", "CRASH"):
                    r["text"] = text
                else:
                    r["status"] = "undecided"
                    r["reason"] = "counterexample did not reproduce natively: " + r.get("reason", "")
        return res
    return go


M = None


def init(fs):
    global M
    from .llparse import Module
    M = Module(fs)
    import gc
    gc.collect()
    gc.freeze()
    gc.set_threshold(200000, 50, 100)


def task(a):
    o, first, deadline = a
    from . import llsym
    # selections that depend on at most 16 bits become tables where that pays
    llsym.TABSEL[:] = [1] if o.startswith("bc6s_") else []
    e = llsym.Exec(M)
    r = dict(o=o, fail=None, und=[], first=first)
    t = time.time()
    if t > deadline:
        r["und"] = ["time limit"]
    else:
        try:
            e.run("@llsym_" + o, first=first, deadline=deadline)
        except llsym.Failure as f:
            r["fail"] = (f.what, f.inputs)
        except llsym.Unsupported as x:
            r["und"].append("unsupported: " + str(x))
        except Exception as x:
            r["und"].append(f"{type(x).__name__}: {x}"[:300])
    r["und"] += e.undecided
    r.update(vcs=e.vcs, by=e.by, paths=e.paths, secs=time.time() - t, solver=e.solver_s)
    return r


def main():
    import multiprocessing as mp
    s = json.load(open(sys.argv[1]))
    deadline = time.time() + s["secs"]
    tasks = []
    for o, n in s["obls"]:
        if n:
            k = max(1, n // 32)
            tasks += [(o, list(range(i, min(n, i + k))), deadline) for i in range(0, n, k)]
        else:
            tasks.append((o, None, deadline))
    acc = {o: dict(obligation=o, back_end="llsym (normal forms, z3 QF_BV)", status="proved", checks=0, discharged=0, seconds=0.0, paths=0, by={}) for o, n in s["obls"]}
    with mp.Pool(s.get("jobs", 8), initializer=init, initargs=(s["ir"],)) as pool:
        it = pool.imap_unordered(task, tasks)
        stop, got = None, 0
        while got < len(tasks):
            try:
                r = it.next(timeout=None if stop is None else max(0.1, stop - time.time()))
            except mp.TimeoutError:
                # a violation is established: the rest need not be run to its end
                pool.terminate()
                for a in acc.values():
                    if a["status"] == "proved":
                        a["status"], a["reason"] = "undecided", "stopped: another obligation of this property has failed"
                break
            got += 1
            if r["fail"] and stop is None:
                stop = time.time() + 20
            a = acc[r["o"]]
            a["checks"] += r["vcs"]
            a["discharged"] += sum(r["by"].values())
            a["seconds"] += r["secs"]
            a["paths"] += r["paths"]
            for k, v in r["by"].items():
                a["by"][k] = a["by"].get(k, 0) + v
            if r["fail"]:
                if a["status"] != "failed":
                    a["reason"], a["input"] = r["fail"]
                a["status"] = "failed"
            elif r["und"] and a["status"] == "proved":
                a["status"] = "undecided"
                a["reason"] = "; ".join(r["und"][:3])
    for a in acc.values():
        if a["status"] == "proved" and a["paths"] == 0:
            a["status"], a["reason"] = "undecided", "vacuous: no path reaches the end"
        a["seconds"] = round(a["seconds"], 1)
    print("@@RESULT" + json.dumps(list(acc.values())))


if __name__ == "__main__":
    main()
