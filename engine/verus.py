"""Verus back end: functions of /repo, extracted from the compiler's expansion,
with the contracts and invariants of /verif/verus put in; one Verus run each."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
from . import extract as X
from .common import *

VD = os.path.join(VERIF, "verus")


def sections(text):
    """{'fn':, 'contract':, 'start':, 'loops': [{inv, begin, end, after, before}], 'extra': ...}"""
    r = dict(contract="", start="", loops=[], top="")
    cur, key = r, None
    for l in text.splitlines():
        m = re.match(r"//@(\w+)\s*(.*)", l)
        if m:
            k, a = m.groups()
            if k == "fn":
                r["fn"] = a.split()
                key = None
            elif k in ("contract", "start", "top"):
                cur, key = r, k
            elif k == "loop":
                r["loops"].append(dict(inv="", kind=a or "for"))
                cur, key = r["loops"][-1], "inv"
            else:
                cur.setdefault(k, "")
                key = k
        elif key:
            cur[key] = cur.get(key, "") + l + "\n"
    return r


def tagged(text, tag):
    """keep untagged lines and the lines tagged for `tag`: `[P01] …` (a line may carry several tags)"""
    out = []
    for l in text.splitlines():
        m = re.match(r"\s*((?:\[\w+\])+)", l)
        if m:
            if f"[{tag}]" not in m.group(1):
                continue
            l = l[m.end():] + f" // {tag}"
        out.append(l)
    return "\n".join(out) + "\n"


def signature(fn, name=None, res="r"):
    args = re.sub(r"\s+", " ", fn.args)
    return f"fn {name or fn.name}({args}) -> ({res}: {fn.ret})"


def source(fn, spec, callees="", name=None):
    """the annotated text of one function"""
    consts, body = X.hoist_consts(X.inline_fn_choice(X.drop_uses(X.flatten_paths(X.desugar(fn.body)))), fn.name)
    body = X.annotate(body, spec["loops"], "\n" + spec["start"])
    return consts + signature(fn, name, spec.get("fn", ["", "r"])[1] if len(spec.get("fn", [])) > 1 else "r") + "\n" + spec["contract"] + body + "\n"


LIMITS = ("rlimit", "Resource limit")


def run(name, text, timeout=300, rlimit=60):
    """dict(status=proved|failed|undecided, verified, errors=[(message, line, text)])"""
    d = os.path.join(BUILD, "verus")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name + ".rs")
    open(p, "w").write(text)
    rc, out, secs = sh(["verus", p, "--crate-type=lib", "--error-format=json", "--output-json", "--time", "--rlimit", str(rlimit),
                        "--triggers-mode", "silent", "--num-threads", "1"], timeout=timeout, cwd=d)
    r = dict(status="undecided", verified=0, errors=[], seconds=secs, file=p, smt=0.0)
    if rc is None:
        r["reason"] = "time limit"
        return r
    i = out.find("\n{\n")
    m = re.search(r'"verified":\s*(\d+),\s*"errors":\s*(\d+)', out)
    if m:
        r["verified"] = int(m.group(1))
    m2 = re.search(r'"smt":\s*\{\s*"total":\s*(\d+)', out)
    if m2:
        r["smt"] = int(m2.group(1)) / 1000
    lines = text.splitlines()
    hard = []
    for l in out.splitlines():
        if not l.startswith('{"$message_type"'):
            continue
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("level") != "error" or e["message"].startswith("aborting"):
            continue
        sp = [s for s in e.get("spans", [])]
        pr = next((s for s in sp if s.get("is_primary")), sp[0] if sp else None)
        ln = pr["line_start"] if pr else 0
        notes = [(s["line_start"], lines[s["line_start"] - 1].strip() if s["line_start"] <= len(lines) else "", s.get("label") or "") for s in sp]
        rec = dict(message=e["message"], line=ln, text=lines[ln - 1].strip() if 0 < ln <= len(lines) else "", spans=notes,
                   rendered=e.get("rendered", ""))
        if e.get("code") or any(k in e["message"] for k in ("not supported", "unsupported", "rlimit", "Resource limit", "trait", "cannot find")):
            hard.append(rec)
        r["errors"].append(rec)
    if m and int(m.group(2)) == 0 and not r["errors"] and int(m.group(1)) > 0:
        r["status"] = "proved"
    elif hard or not m or not r["errors"]:
        r["reason"] = (hard or r["errors"] or [dict(message=out[-300:])])[0]["message"]
    else:
        r["status"] = "failed"
    return r


PRELUDE = None


def contract_only(name, spec, args):
    """external declaration of a function with its contract"""
    return f"#[verifier::external_body]\nfn {name}({args})\n{spec['contract']}{{ unimplemented!() }}\n"


def load(n):
    return open(os.path.join(VD, n + ".rs")).read()


FULL = dict(KEEP="0", KEPT="true", KEEPPROOF="")


def keep(mask):
    return dict(KEEP=mask, KEPT=f"forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] & {mask}u32 == 0xff000000u32",
                KEEPPROOF=f"assert(0xff000000u32 & {mask}u32 == 0xff000000u32) by (bit_vector);")


DRIVERS = {}
for _n, _s in dict(bc1=8, bc1a=8, bc2=16, bc3=16, bc4=8, bc5=16, bc6_signed=16, bc6_unsigned=16, bc7=16, etc1=8, etc2_rgb=8, etc2_rgba1=8,
                   etc2_rgba8=16, eacr=8, eacr_signed=8, eacrg=16, eacrg_signed=16, atc_rgb4=8, atc_rgba8=16).items():
    _c = {"bc6_signed": "decode_bc6_block_signed", "bc6_unsigned": "decode_bc6_block_unsigned"}.get(_n, f"decode_{_n}_block")
    DRIVERS["decode_" + _n] = dict(BW="4", BH="4", SIZE=str(_s), CALLEE=_c, **{"bc4": keep("0xff00ffff"), "bc5": keep("0xff0000ff")}.get(_n, FULL))


CB_ARGS = "bx: usize, by: usize, w: usize, h: usize, bw: usize, bh: usize, buffer: &[u32], image: &mut [u32]"
COLOR = "#[verifier::external_body]\nconst fn color(r: u8, g: u8, b: u8, a: u8) -> (c: u32) ensures c == color_of(r, g, b, a) { unimplemented!() }\n"


def driver_text(fn, tag):
    s = load({"decode_astc": "driver_astc", "decode_pvrtc": "driver_pvrtc"}.get(fn.name, "driver"))
    for k, v in DRIVERS.get(fn.name, {}).items():
        s = s.replace(f"@{k}@", v)
    s = sections(tagged(s, tag))
    ext = contract_only("copy_block_buffer", sections(load("copy_block_buffer")), CB_ARGS)
    return load("prelude") + "verus!{\n" + COLOR + ext + s["top"] + source(fn, s) + "}\n"


def helper_text(fn):
    s = sections(load(fn.name))
    if fn.name == "color":
        # the array-typed library function needs its contract stated through a wrapper
        fn.body = re.sub(r"\bu32::from_le_bytes\b", "u32_from_le_bytes", fn.body)
    return load("prelude") + "verus!{\n" + s["top"] + source(fn, s) + "}\n"


# --- equivalent entry points ------------------------------------------------
WRAPPERS = {}
for _w, _h in ((4, 4), (5, 4), (5, 5), (6, 5), (6, 6), (8, 5), (8, 6), (8, 8), (10, 5), (10, 6), (10, 8), (10, 10), (12, 10), (12, 12)):
    WRAPPERS[f"decode_astc_{_w}_{_h}"] = [("", "decode_astc", f"data@, width, height, {_w}usize, {_h}usize, old(image)@")]
WRAPPERS["decode_bc6"] = [("signed ==> ", "decode_bc6_signed", "data@, width, height, old(image)@"),
                          ("!signed ==> ", "decode_bc6_unsigned", "data@, width, height, old(image)@")]
WRAPPERS["decode_bc6_block_signed"] = [("", "decode_bc6_block", "data@, old(outbuf)@, true")]
WRAPPERS["decode_bc6_block_unsigned"] = [("", "decode_bc6_block", "data@, old(outbuf)@, false")]
WRAPPERS["decode_pvrtc_2bpp"] = [("", "decode_pvrtc", "data@, width, height, old(image)@, true")]
WRAPPERS["decode_pvrtc_4bpp"] = [("", "decode_pvrtc", "data@, width, height, old(image)@, false")]
NAMES = dict(data=("&[u8]", 0), width=("usize", 0), image=("&mut [u32]", 1))


def params(fn):
    """[(name, type)] of a function's arguments"""
    r, d, cur = [], 0, ""
    for c in re.sub(r"\s+", " ", fn.args) + ",":
        if c == "," and d == 0:
            if cur.strip():
                n, t = cur.split(":", 1)
                r.append((n.strip(), t.strip()))
            cur = ""
            continue
        d += c in "([<"
        d -= c in ")]>"
        cur += c
    return r


def deterministic(fn):
    """contract of a called function: result and final buffers are functions of the arguments"""
    ps = params(fn)
    spec_t = dict([("&[u8]", "Seq<u8>"), ("&mut [u32]", "Seq<u32>")])
    decl = ", ".join(f"{n}: {spec_t.get(t, t)}" for n, t in ps)
    use = ", ".join(f"old({n})@" if t.startswith("&mut") else f"{n}@" if t.startswith("&") else n for n, t in ps)
    bad = [t for n, t in ps if t.startswith("&") and t not in spec_t]
    if bad:
        raise X.Lost(f"argument type {bad[0]}")
    ret = fn.ret
    out = f"pub uninterp spec fn res_{fn.name}({decl}) -> {ret};\n"
    ens = f"r == res_{fn.name}({use})"
    for n, t in ps:
        if t.startswith("&mut"):
            out += f"pub uninterp spec fn buf_{fn.name}({decl}) -> Seq<u32>;\n"
            ens += f", final({n})@ == buf_{fn.name}({use})"
    return out + f"#[verifier::external_body]\nfn {fn.name}({fn.args}) -> (r: {ret})\n    ensures {ens}\n{{ unimplemented!() }}\n"


def wrapper_text(fn, fns):
    body = X.flatten_paths(X.desugar(fn.body))
    called = sorted({t for t in re.findall(r"\b(\w+)\s*\(", body) if t in fns} | {w[1] for w in WRAPPERS[fn.name]})
    out = "use vstd::prelude::*;\nverus!{\n"
    for c in called:
        if c not in fns or len(fns[c]) != 1:
            raise X.Lost(f"function {c} missing or ambiguous")
        out += deterministic(fns[c][0])
    buf = [n for n, t in params(fn) if t.startswith("&mut")][0]
    ens = ",\n".join(f"        {g}(r == res_{t}({a}) && final({buf})@ == buf_{t}({a})) // P25" for g, t, a in WRAPPERS[fn.name])
    ens = ens.replace(") // P25,\n", "), // P25\n")
    return out + source(fn, dict(contract="    ensures\n" + ens + "\n", start="", loops=[]), None) + "}\n"


def one(fns, name, what):
    """text of one obligation"""
    if name not in fns:
        raise X.Lost(f"function {name} is gone")
    if len(fns[name]) > 1:
        raise X.Lost(f"function {name} is ambiguous")
    fn = fns[name][0]
    if fn.body is None:
        raise X.Lost(f"function {name} has no body")
    if what == "helper":
        return helper_text(fn)
    if what == "wrapper":
        return wrapper_text(fn, fns)
    return driver_text(fn, what)


SAFETY = ("overflow", "underflow", "precondition", "index", "division", "arithmetic", "unreachable", "assertion")


def engine(jobs):
    """jobs: [(function, 'helper'|'wrapper'|tag)]"""

    def f(ctx):
        pid = ctx["pid"]
        recs = []
        try:
            fns = X.functions(X.expand())
        except X.Lost as e:
            return [dict(obligation=f"{n}", back_end="verus/z3", status="undecided", checks=1, discharged=0, seconds=0, reason=str(e)[-300:]) for n, _ in jobs]

        def go(j):
            n, what = j
            rec = dict(obligation=n, back_end="verus/z3", contract={"helper": "copied region / value", "wrapper": "same result and buffer as the general function"}.get(what, what),
                       checks=1, discharged=0, seconds=0)
            try:
                text = one(fns, n, what)
            except X.Lost as e:
                return dict(rec, status="undecided", reason="not extractable: " + str(e))
            except (KeyError, IndexError, ValueError) as e:
                return dict(rec, status="undecided", reason="not extractable: " + repr(e))
            r = run(f"{pid}-{n}", text, timeout=max(30, min(300, ctx["left"]() - 60)))
            rec.update(status=r["status"], checks=r["verified"] + max(1, len(r["errors"])) - (r["status"] == "proved"),
                       discharged=r["verified"], seconds=round(r["seconds"], 1), solver_seconds=r["smt"])
            if r["status"] == "undecided":
                rec["reason"] = r.get("reason", "")
            if r["status"] == "failed":
                mine = [e for e in r["errors"] if any(f"// {pid}" in t for _, t, _ in e["spans"])]
                safe = [e for e in r["errors"] if e not in mine and pid == "P03" and any(k in e["message"] for k in SAFETY)]
                rec["failed"] = [dict(message=e["message"], clause=[t for _, t, _ in e["spans"]][:3]) for e in (mine + safe or r["errors"])[:5]]
                rec["reason"] = "; ".join(f"{e['message']}: {e['text'][:200]}" for e in (mine + safe or r["errors"])[:3])
                rec["text"] = "\n".join(e["rendered"] for e in r["errors"])[:8000]
                rec["decisive"] = bool(mine or safe)
            return rec

        with ThreadPoolExecutor(8) as ex:
            recs = list(ex.map(go, jobs))
        return recs
    return f
