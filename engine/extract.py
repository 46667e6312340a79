"""Mechanical extraction of functions from /repo for the deductive verifier.

The text comes from rustc itself (`-Zunpretty=expanded`: every macro expanded),
so what is verified is what is compiled.  What the extraction changes:
  * attributes, doc comments and visibility are dropped
  * a statement `(RANGE).for_each(|P| { BODY });` is written `for P in RANGE { BODY }`
    (only when BODY has no return, break, continue or `?`)
  * a statement `X.iter_mut().for_each(|p| { BODY });` is written
    `let n = X.len(); for i in 0..n { let p = &mut X[i]; BODY }`
  * `let f = if c { A } else { B };` disappears and f(..) is written
    `if c { A(..) } else { B(..) }`
  * the inferred type of literal loop bounds is written out (0..3 as 0..3usize)
  * `use` and `extern crate alloc` inside a function are dropped
  * paths to other functions lose their module prefix
  * `const NAME: usize = E;` items inside a function move in front of it
Contracts and loop invariants are inserted; nothing else is touched.
"""
import re, os
from .common import *


class Lost(Exception):
    """the code no longer has the shape the contracts are attached to"""


def expand(features=None):
    cmd = ["cargo", "+nightly", "rustc", "--lib", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml"),
           "--target-dir", os.path.join(BUILD, "expand")]
    rc, out, _ = sh(cmd + ["--", "-Zunpretty=expanded", "-Awarnings"], timeout=300)
    i = out.find("#![")
    if rc != 0 or i < 0:
        raise Lost("expansion failed: " + out[-1500:])
    j = out.rfind("\n    Finished")
    return out[i:j if j > 0 else None]


TOK = re.compile(r'''(?P<ws>\s+|//[^\n]*|/\*.*?\*/)|(?P<str>b?"(?:\\.|[^"\\])*")|(?P<chr>b?'(?:\\[^']*|[^\\'])')|(?P<life>'\w+)|(?P<id>\w+)|(?P<op>\.\.=|\.\.|::|->|=>|<<=|>>=|&&|\|\||[-+*/%&|^!=<>]=|<<|>>|.)''', re.S)


def lex(s):
    r = []
    for m in TOK.finditer(s):
        if m.lastgroup != "ws":
            r.append((m.group(), m.start(), m.end()))
    return r


OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}


def match(ts, i):
    """index of the token closing ts[i]"""
    d = 0
    for k in range(i, len(ts)):
        if ts[k][0] in OPEN:
            d += 1
        elif ts[k][0] in CLOSE:
            d -= 1
            if d == 0:
                return k
    raise Lost("unbalanced")


class Fn:
    def __init__(self, name, path, text, ts, i):
        self.name, self.path = name, path
        # ts[i] is `fn`; find the argument list and the body
        k = i + 2
        if ts[k][0] == "<":
            while ts[k][0] != ">":
                k += 1
            k += 1
        e = match(ts, k)
        self.args = text[ts[k][1] + 1:ts[e][1]]
        b = e + 1
        while ts[b][0] not in ("{", ";"):
            b += 1
        self.ret = text[ts[e][2]:ts[b][1]].strip()
        self.ret = self.ret[2:].strip() if self.ret.startswith("->") else "()"
        if ts[b][0] == ";":
            self.body = None
            return
        z = match(ts, b)
        self.body = text[ts[b][1]:ts[z][2]]


def functions(text):
    """{name: [Fn]}; the path is the list of enclosing modules"""
    ts = lex(text)
    r = {}
    stack = []  # (close index, module name)
    for i, (t, a, b) in enumerate(ts):
        while stack and i > stack[-1][0]:
            stack.pop()
        if t == "mod" and i + 2 < len(ts) and ts[i + 2][0] == "{":
            stack.append((match(ts, i + 2), ts[i + 1][0]))
        elif t == "fn" and re.match(r"\w+$", ts[i + 1][0]) and ts[i + 2][0] in "(<":
            f = Fn(ts[i + 1][0], [m for _, m in stack], text, ts, i)
            r.setdefault(f.name, []).append(f)
    return r


def desugar(body):
    """for_each over a range, as a statement, becomes a for loop"""
    while True:
        ts = lex(body)
        for i, (t, a, b) in enumerate(ts):
            if t != "for_each" or ts[i - 1][0] != ".":
                continue
            # X.iter_mut() as the receiver: an index loop over X
            if [x[0] for x in ts[i - 5:i - 1]] == [".", "iter_mut", "(", ")"] and ts[i - 7][0] in (";", "{", "}"):
                e = match(ts, i + 1)
                p = i + 3
                while ts[p][0] != "|":
                    p += 1
                pat, v = body[ts[i + 2][2]:ts[p][1]].strip(), ts[i - 6][0]
                inner = body[ts[p][2]:ts[e][1]].strip()
                if inner[:1] != "{" or {x[0] for x in lex(inner)} & {"return", "break", "continue", "?"} or not re.match(r"\w+$", pat):
                    raise Lost("for_each over iter_mut")
                end = ts[e + 1][2] if ts[e + 1][0] == ";" else ts[e][2]
                body = body[:ts[i - 6][1]] + f"let {v}_n = {v}.len(); for {v}_i in 0..{v}_n {{ let {pat} = &mut {v}[{v}_i]; {inner[1:]}" + body[end:]
                break
            # receiver: a parenthesised range
            if ts[i - 2][0] != ")":
                raise Lost("for_each on something other than a range")
            d, k = 0, i - 2
            while True:
                if ts[k][0] in CLOSE:
                    d += 1
                elif ts[k][0] in OPEN:
                    d -= 1
                    if d == 0:
                        break
                k -= 1
            if ts[k - 1][0] not in (";", "{", "}"):
                raise Lost("for_each is not a statement")
            rng = body[ts[k][2]:ts[i - 2][1]]
            if ".." not in rng:
                raise Lost("for_each on something other than a range")
            e = match(ts, i + 1)
            if ts[i + 2][0] != "|":
                raise Lost("for_each with a named function")
            p = i + 3
            while ts[p][0] != "|":
                p += 1
            pat = body[ts[i + 2][2]:ts[p][1]].strip()
            inner = body[ts[p][2]:ts[e][1]].strip()
            if inner[:1] != "{":
                inner = "{ " + inner + "; }"
            it = [x[0] for x in lex(inner)]
            if set(it) & {"return", "break", "continue", "?"}:
                raise Lost("control flow leaves a for_each body")
            end = ts[e][2]
            if e + 1 < len(ts) and ts[e + 1][0] == ";":
                end = ts[e + 1][2]
            body = body[:ts[k][1]] + f"for {pat} in {rng} {inner}" + body[end:]
            break
        else:
            return body


def inline_fn_choice(body):
    """`let f = if c { A } else { B };` with f only called: calls become `if c { A(..) } else { B(..) }`"""
    for m in list(re.finditer(r"let (\w+) =\s*if (\w+)\s*\{\s*(\w+)\s*\} else \{\s*(\w+)\s*\};", body)):
        f, c, a, b = m.groups()
        rest = body.replace(m.group(0), "", 1)
        calls = re.findall(rf"\b{f}\b(\s*\()?", rest)
        if not calls or not all(calls) or re.search(rf"\b{c}\s*=[^=]", rest):
            continue
        body = rest
        while True:
            ts = lex(body)
            k = next((i for i, t in enumerate(ts) if t[0] == f), None)
            if k is None:
                break
            e = match(ts, k + 1)
            args = body[ts[k + 1][1]:ts[e][2]]
            body = body[:ts[k][1]] + f"if {c} {{ {a}{args} }} else {{ {b}{args} }}" + body[ts[e][2]:]
    return body


def drop_uses(body):
    """`extern crate alloc;` and `use alloc::vec::Vec;` inside a function"""
    body = re.sub(r"\bextern crate alloc;", "", body)
    return re.sub(r"\buse (?:alloc|std|core)::[\w:{}, ]+;", "", body)


def flatten_paths(body):
    """crate::a::b(…) and self::/super:: paths lose their prefix"""
    return re.sub(r"\b(?:crate|self|super)::(?:\w+::)*(\w+)", r"\1", body)


def hoist_consts(body, suffix):
    """(const items, body) with the names made unique"""
    cs = []
    for m in list(re.finditer(r"\bconst\s+(\w+)\s*:\s*usize\s*=\s*([^;]+);", body)):
        cs.append((m.group(1), m.group(2)))
        body = body.replace(m.group(0), "", 1)
    for n, _ in cs:
        body = re.sub(rf"\b{n}\b", f"{n}_{suffix}", body)
        cs = [(a, re.sub(rf"\b{n}\b", f"{n}_{suffix}", e)) for a, e in cs]
    return "".join(f"const {a}_{suffix}: usize = {e};\n" for a, e in cs), body


def loops(body):
    """positions (offset of `{`, close) of the loops in order of appearance"""
    ts = lex(body)
    r = []
    for i, (t, a, b) in enumerate(ts):
        if t in ("for", "while", "loop"):
            k = i + 1
            while ts[k][0] != "{":
                k = match(ts, k) + 1 if ts[k][0] in OPEN else k + 1
            z = match(ts, k)
            r.append((t, ts[k][1], ts[z][1], ts[i][1], body[a:ts[k][1]].strip()))
    return r


def annotate(body, specs, start=""):
    """specs: per loop dict(inv=text, begin=proof text, end=proof text, after=..)"""
    ls = loops(body)
    if len(ls) != len(specs):
        raise Lost(f"{len(ls)} loops, contracts for {len(specs)}")
    ins = [(1, start)]
    for (kind, o, c, a, head), s in zip(ls, specs):
        want, _, ty = s.get("kind", "for").partition(":")
        if kind != want:
            raise Lost("loop kind changed")
        if ty:
            # write out the inferred type of the literal bounds
            m = re.match(r"for \w+ in 0\s*\.\.\s*(\d+)$", head)
            if m:
                ins.append((a + len(head), ty))
        ins.append((o, " " + s.get("inv", "") + "\n"))
        ins.append((o + 1, " " + s.get("begin", "")))
        ins.append((c, " " + s.get("end", "") + " "))
        ins.append((c + 1, " " + s.get("after", "")))
        ins.append((a, s.get("before", "")))
    # a loop body may end in an expression without a semicolon
    for p, t in sorted(ins, key=lambda x: -x[0]):
        if t:
            body = body[:p] + t + body[p:]
    return body
