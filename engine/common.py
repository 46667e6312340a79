"""Shared helpers of the checks."""
import json, os, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
OBL = os.path.join(VERIF, "obl")
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
T0 = time.time()
# wall-clock budget of one check: the verifier is cut off before this
BUDGET = 780 if TIER == "quick" else 6 * 3600


def left():
    return BUDGET - (time.time() - T0)


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def sh(cmd, timeout=None, cwd=None, extra=None):
    """run, return (rc, stdout+stderr, seconds); rc None on timeout"""
    t = time.time()
    ev = env()
    ev.update(extra or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=ev, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, time.time() - t
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out, time.time() - t
