#!/usr/bin/env python3
"""mkbug.py FILE.py [id ...]: build and confirm planted bugs.

FILE.py defines BUGS = {id: dict(property, edits=[(file, old, new)], demo=rust,
needs=..., what=...)}.  Each bug is applied to a scratch copy of /repo; it is
kept under /verif/seeded/<id> only when it builds, the stable tests pass and the
demonstration passes without and fails with it."""
import json, os, subprocess, sys, shutil, importlib.util, re, tempfile

VERIF = "/verif"
TREE = "/tmp/bugtree"
spec = importlib.util.spec_from_file_location("b", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
want = sys.argv[2:] or list(m.BUGS)

PRE = r'''
#![allow(dead_code, unused_imports)]
use texture2ddecoder as t;
/// deterministic bytes
struct R(u64);
impl R {
    fn n(&mut self) -> u64 { self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); self.0 >> 33 }
    fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.n() as u8).collect() }
}
fn show(v: &[u32]) { for x in v { print!("{x:08x} "); } println!(); }
fn blk(f: fn(&[u8], &mut [u32]), d: &[u8]) { let mut o = [0u32; 16]; f(d, &mut o); show(&o); }
fn quiet<T>(f: impl FnOnce() -> T + std::panic::UnwindSafe) -> Option<T> {
    std::panic::set_hook(Box::new(|_| {}));
    std::panic::catch_unwind(f).ok()
}
'''
DEMO = '''#!/bin/sh
# exit 0 when the decoder gives the expected texels
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[workspace]
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
texture2ddecoder = { path = "$repo" }
[profile.dev]
opt-level = 1
T
cd "$tmp" || exit 2
CARGO_NET_OFFLINE=true cargo run --offline --quiet > out.txt 2> err.txt
if cmp -s out.txt "$here/expected.txt"; then echo "as expected"; exit 0; fi
echo "unexpected result"; diff out.txt "$here/expected.txt" | head -5; tail -5 err.txt
exit 1
'''


def sh(c, cwd=None, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    if not os.path.isdir(TREE):
        sh(f"cp -a /repo {TREE}")
    sh("git checkout -q -f . && git clean -fdq && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=TREE)


def tests():
    """cargo tests of the scratch tree, as the baseline lists them"""
    r = sh("CARGO_NET_OFFLINE=true cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=TREE)
    return r.stdout


def passed(out):
    return set(re.findall(r"^test (\S+) \.\.\. ok", out, re.M)), set(re.findall(r"^test (\S+) \.\.\. FAILED", out, re.M))


clean()
base_ok, base_bad = passed(tests())
print("baseline", len(base_ok), base_bad)
for bid in want:
    b = m.BUGS[bid]
    clean()
    d = f"{VERIF}/seeded/{bid}"
    tmp = tempfile.mkdtemp()
    open(tmp + "/main.rs", "w").write(PRE + b["demo"])
    open(tmp + "/demo.sh", "w").write(b.get("demo_sh", DEMO))
    open(tmp + "/expected.txt", "w").write("")
    for k, v in b.get("files", {}).items():
        open(tmp + "/" + k, "w").write(v)
    r = sh(f"sh {tmp}/demo.sh", cwd=TREE)
    if "demo_sh" not in b:
        # record the expectation on the unchanged tree
        cap = DEMO.replace('if cmp -s', 'cp out.txt "$here/expected.txt"; tail -30 err.txt; if cmp -s')
        open(tmp + "/cap.sh", "w").write(cap)
        r = sh(f"sh {tmp}/cap.sh", cwd=TREE)
        os.remove(tmp + "/cap.sh")
        if not os.path.getsize(tmp + "/expected.txt"):
            print(bid, "DEMO DOES NOT RUN", r.stdout[-3000:]); continue
    ok0 = sh(f"sh {tmp}/demo.sh", cwd=TREE)
    bad = False
    for f, old, new in b["edits"]:
        p = f"{TREE}/{f}"
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        n = b.get("count", {}).get(old.strip(), 1)
        if s.count(old) < 1:
            print(bid, "EDIT NOT FOUND", f, old); bad = True; break
        if s.count(old) > 1 and "\0" not in new and not b.get("all") and b.get("nth") is None:
            print(bid, "EDIT AMBIGUOUS", f, s.count(old), old); bad = True; break
        if b.get("nth") is not None and s.count(old) > 1:
            parts = s.split(old)
            k = b["nth"]
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        else:
            s = s.replace(old, new)
        open(p, "w", newline="").write(s)
    if bad:
        continue
    out = tests()
    ok, ko = passed(out)
    if base_ok - ok:
        print(bid, "TESTS FAIL", sorted(base_ok - ok)[:5], out[-1500:] if "could not compile" in out else ""); continue
    # python bindings must build too
    if os.path.isdir(f"{TREE}/bindings/python"):
        rb = sh("CARGO_NET_OFFLINE=true cargo check --offline", cwd=f"{TREE}/bindings/python")
        if rb.returncode:
            print(bid, "BINDINGS DO NOT BUILD", rb.stdout[-800:]); continue
    ok1 = sh(f"sh {tmp}/demo.sh", cwd=TREE)
    if ok0.returncode != 0 or ok1.returncode == 0:
        print(bid, "DEMO", ok0.returncode, ok1.returncode, ok0.stdout[-500:], ok1.stdout[-500:]); continue
    diff = subprocess.run("git diff --binary", shell=True, cwd=TREE, stdout=subprocess.PIPE).stdout
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    open(d + "/patch.diff", "wb").write(diff)
    json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["what"]), open(d + "/meta.json", "w"), indent=1)
    os.chmod(d + "/demo.sh", 0o755)
    a = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(bid, "KEPT", "" if a.returncode == 0 else "DOES NOT APPLY " + a.stdout)
    shutil.rmtree(tmp)
clean()
