"""Reader for the textual LLVM IR rustc emits (the subset the crate compiles to)."""
import re

TOK = re.compile(r'\s*(c"(?:[^"])*"|"(?:[^"\\]|\\.)*"|[@%](?:"[^"]*"|[-\w$.]+)|![\w.]*|#\d+|0x[0-9A-Fa-fKLMHR]+|-?\d+\.\d+e[+-]?\d+|-?\d+|\.\.\.|[\w.]+|<\{|\}>|[\[\]{}()<>,=*:|])')


def tokens(s):
    r, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "" or s[i:].lstrip().startswith(";"):
                break
            raise SyntaxError("token: " + s[i:i + 60])
        r.append(m.group(1))
        i = m.end()
    return r


class T:  # token cursor
    def __init__(self, t):
        self.t, self.i = t, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def want(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError(f"wanted {x} got {y} in {' '.join(self.t[:40])}")


def ptype(c):
    t = c.next()
    if re.fullmatch(r"i\d+", t):
        r = ("i", int(t[1:]))
    elif t == "ptr":
        r = ("p",)
    elif t in ("float", "double", "void", "label", "metadata", "half"):
        r = (t,)
    elif t == "[":
        n = int(c.next())
        c.want("x")
        e = ptype(c)
        c.want("]")
        r = ("a", n, e)
    elif t in ("{", "<{"):
        fs = []
        end = "}" if t == "{" else "}>"
        while not c.eat(end):
            fs.append(ptype(c))
            c.eat(",")
        r = ("s", tuple(fs), t == "<{")
    elif t == "<":
        n = int(c.next())
        c.want("x")
        e = ptype(c)
        c.want(">")
        r = ("v", n, e)
    elif t.startswith("%"):
        r = ("n", t)
    else:
        raise SyntaxError("type " + t)
    return r


def align(t):
    k = t[0]
    if k == "i":
        return min(16, max(1, 1 << max(0, ((t[1] + 7) // 8 - 1).bit_length())))
    if k in ("p", "double"):
        return 8
    if k == "float":
        return 4
    if k in ("a", "v"):
        return align(t[2])
    if k == "s":
        return 1 if t[2] else max([align(f) for f in t[1]] or [1])
    raise SyntaxError("align " + str(t))


def size(t):
    k = t[0]
    if k == "i":
        n = (t[1] + 7) // 8
        a = align(t)
        return (n + a - 1) // a * a
    if k in ("p", "double"):
        return 8
    if k == "float":
        return 4
    if k in ("a", "v"):
        return t[1] * size(t[2])
    if k == "s":
        return layout(t)[1]
    raise SyntaxError("size " + str(t))


def layout(t):
    off, offs = 0, []
    for f in t[1]:
        a = 1 if t[2] else align(f)
        off = (off + a - 1) // a * a
        offs.append(off)
        off += size(f)
    a = align(t)
    return offs, (off + a - 1) // a * a


PATTR = {"noundef", "noalias", "nofree", "nonnull", "readonly", "readnone", "writeonly", "zeroext", "signext", "inreg", "immarg",
         "returned", "dead_on_unwind", "dead_on_return", "writable", "nocapture", "allocalign", "allocptr", "dereferenceable", "captures", "range", "align",
         "sret", "byval", "nofpclass", "initializes", "dereferenceable_or_null", "noext", "swiftself", "nest"}


def pattrs(c):
    while True:
        p = c.peek()
        if p in PATTR:
            c.next()
            if p == "align" and c.peek() != "(":
                c.next()
            elif c.peek() == "(":
                d = 0
                while True:
                    x = c.next()
                    d += x == "("
                    d -= x == ")"
                    if d == 0:
                        break
        else:
            return


def pval(c, t):
    """operand of type t: ('l',name) ('g',name) ('c',int) ('f',float) ('u',) ('ce',...) ('agg',[...])"""
    x = c.next()
    if x[0] == "%":
        return ("l", x)
    if x[0] == "@":
        return ("g", x)
    if x == "true":
        return ("c", 1)
    if x == "false":
        return ("c", 0)
    if x == "null":
        return ("c", 0)
    if x in ("undef", "poison"):
        return ("u",)
    if x in ("zeroinitializer",):
        return ("z", t)
    if re.fullmatch(r"-?\d+", x):
        v = int(x)
        return ("c", v & ((1 << t[1]) - 1) if t[0] == "i" else v)
    if x.startswith("0x"):
        import struct
        return ("f", struct.unpack(">d", bytes.fromhex(x[2:].rjust(16, "0")))[0])
    if re.fullmatch(r"-?\d+\.\d+e[+-]?\d+", x):
        return ("f", float(x))
    if x.startswith('c"'):
        return ("s", cstr(x[2:-1]))
    if x in ("{", "<{", "["):
        end = {"{": "}", "<{": "}>", "[": "]"}[x]
        r = []
        while not c.eat(end):
            ft = ptype(c)
            r.append((ft, pval(c, ft)))
            c.eat(",")
        return ("agg", r)
    if x == "getelementptr":
        while c.peek() != "(":
            c.next()
            if c.peek() == "(" and c.t[c.i - 1] in ("inrange",):
                while c.next() != ")":
                    pass
        c.want("(")
        st = ptype(c)
        c.want(",")
        bt = ptype(c)
        base = pval(c, bt)
        idx = []
        while c.eat(","):
            it = ptype(c)
            idx.append((it, pval(c, it)))
        c.want(")")
        return ("gep", st, base, idx)
    if x == "inttoptr":
        c.want("(")
        v = pval(c, ptype(c))
        c.want("to")
        ptype(c)
        c.want(")")
        return v
    if x in ("ptrtoint", "ptrtoaddr"):
        c.want("(")
        v = pval(c, ptype(c))
        c.want("to")
        ptype(c)
        c.want(")")
        return v
    if x == "sub":
        while c.peek() != "(":
            c.next()
        c.want("(")
        a = pval(c, ptype(c))
        c.want(",")
        b = pval(c, ptype(c))
        c.want(")")
        return ("rel", a, b)
    if x == "trunc":
        while c.peek() != "(":
            c.next()
        c.want("(")
        v = pval(c, ptype(c))
        c.want("to")
        ptype(c)
        c.want(")")
        return v
    if x in ("bitcast",):
        raise SyntaxError("constant expression " + x)
    raise SyntaxError("operand " + x + " in " + " ".join(c.t[:40]))


def cstr(s):
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode("latin-1")
            i += 1
    return bytes(out)


FLAGS = {"nuw", "nsw", "exact", "disjoint", "inbounds", "nneg", "samesign", "volatile", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "nusw"}
BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CAST = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ptrtoaddr"}


class Func:
    def __init__(self, name, header, body):
        self.name, self.header, self.body = name, header, body
        self.params = None

    def parse(self):
        if self.params is not None:
            return self
        c = T(tokens(self.header))
        while c.peek() != self.name:
            c.next()
        c.next()
        c.want("(")
        self.params = []
        while not c.eat(")"):
            if c.eat("..."):
                continue
            t = ptype(c)
            pattrs(c)
            self.params.append((t, c.next() if c.peek()[0] == "%" else None))
            c.eat(",")
        self.blocks = {}
        cur = None
        lines = self.body
        i = 0
        n = len([p for p in self.params])
        while i < len(lines):
            l = lines[i]
            i += 1
            s = l.strip()
            if not s or s[0] == ";":
                continue
            if not l.startswith(" "):
                m = re.match(r'("[^"]*"|[-\w$.]+):', s)
                cur = "%" + m.group(1)
                self.blocks[cur] = []
                continue
            if cur is None:
                cur = "%entry0"
                self.blocks[cur] = []
            if s.startswith("#dbg") :
                continue
            if re.match(r"switch ", s):
                while "]" not in s:
                    s += " " + lines[i].strip()
                    i += 1
            while s.startswith(("%", "invoke")) and s.rstrip().endswith(("landingpad { ptr, i32 }",)):
                break
            m = re.search(r", !\w", s)
            if m:
                s = s[:m.start()]
            self.blocks[cur].append(s)
        self.entry = next(iter(self.blocks))
        self.parsed = {}
        return self

    def block(self, b):
        if b not in self.parsed:
            ins = [pinstr(s) for s in self.blocks[b]]
            ins = [x for x in ins if x is not None]
            self.parsed[b] = ins
        return self.parsed[b]


IGN = ("@llvm.lifetime", "@llvm.experimental.noalias", "@llvm.dbg", "@llvm.prefetch")


def pinstr(s):
    c = T(tokens(s))
    dst = None
    if c.peek()[0] == "%":
        dst = c.next()
        c.want("=")
    op = c.next()
    if op in ("tail", "musttail", "notail"):
        op = c.next()
    if op in BIN:
        while c.peek() in FLAGS:
            c.next()
        t = ptype(c)
        a = pval(c, t)
        c.want(",")
        b = pval(c, t)
        return ("bin", dst, op, t, a, b)
    if op in ("icmp", "fcmp"):
        while c.peek() in FLAGS:
            c.next()
        pr = c.next()
        t = ptype(c)
        a = pval(c, t)
        c.want(",")
        b = pval(c, t)
        return (op, dst, pr, t, a, b)
    if op == "fneg":
        while c.peek() in FLAGS:
            c.next()
        t = ptype(c)
        return ("fneg", dst, t, pval(c, t))
    if op in CAST:
        while c.peek() in FLAGS:
            c.next()
        t = ptype(c)
        a = pval(c, t)
        c.want("to")
        return ("cast", dst, op, t, a, ptype(c))
    if op == "freeze":
        t = ptype(c)
        return ("freeze", dst, t, pval(c, t))
    if op == "select":
        while c.peek() in FLAGS:
            c.next()
        ct = ptype(c)
        cv = pval(c, ct)
        c.want(",")
        t = ptype(c)
        a = pval(c, t)
        c.want(",")
        t2 = ptype(c)
        return ("select", dst, cv, t, a, pval(c, t2))
    if op == "phi":
        while c.peek() in FLAGS:
            c.next()
        t = ptype(c)
        inc = {}
        while True:
            c.want("[")
            v = pval(c, t)
            c.want(",")
            inc[c.next()] = v
            c.want("]")
            if not c.eat(","):
                break
        return ("phi", dst, t, inc)
    if op == "br":
        if c.eat("label"):
            return ("jmp", c.next())
        t = ptype(c)
        v = pval(c, t)
        c.want(",")
        c.want("label")
        a = c.next()
        c.want(",")
        c.want("label")
        return ("br", v, a, c.next())
    if op == "switch":
        t = ptype(c)
        v = pval(c, t)
        c.want(",")
        c.want("label")
        d = c.next()
        c.want("[")
        cs = []
        while not c.eat("]"):
            ct = ptype(c)
            k = pval(c, ct)
            c.want(",")
            c.want("label")
            cs.append((k[1], c.next()))
        return ("switch", t, v, d, cs)
    if op == "ret":
        t = ptype(c)
        return ("ret", None if t == ("void",) else pval(c, t), t)
    if op == "unreachable":
        return ("unreachable",)
    if op == "alloca":
        t = ptype(c)
        return ("alloca", dst, size(t))
    if op == "load":
        while c.peek() in FLAGS:
            c.next()
        t = ptype(c)
        c.want(",")
        pt = ptype(c)
        return ("load", dst, t, pval(c, pt))
    if op == "store":
        while c.peek() in FLAGS:
            c.next()
        t = ptype(c)
        v = pval(c, t)
        c.want(",")
        pt = ptype(c)
        return ("store", t, v, pval(c, pt))
    if op == "getelementptr":
        while c.peek() in FLAGS:
            c.next()
        st = ptype(c)
        c.want(",")
        bt = ptype(c)
        base = pval(c, bt)
        idx = []
        while c.eat(","):
            it = ptype(c)
            idx.append((it, pval(c, it)))
        return ("gep", dst, st, base, idx)
    if op == "extractvalue":
        t = ptype(c)
        v = pval(c, t)
        ix = []
        while c.eat(","):
            ix.append(int(c.next()))
        return ("extract", dst, t, v, ix)
    if op == "insertvalue":
        t = ptype(c)
        v = pval(c, t)
        c.want(",")
        et = ptype(c)
        ev = pval(c, et)
        ix = []
        while c.eat(","):
            ix.append(int(c.next()))
        return ("insert", dst, t, v, et, ev, ix)
    if op == "call":
        # cc, attributes, return type, callee, args
        while True:
            p = c.peek()
            if p in FLAGS or p in ("fastcc", "ccc", "coldcc"):
                c.next()
            elif p in PATTR:
                pattrs(c)
            else:
                break
        t = ptype(c)
        callee = c.next()
        if callee == "asm":
            raise SyntaxError("asm")
        c.want("(")
        args = []
        if callee.startswith(IGN):
            return None
        while not c.eat(")"):
            at = ptype(c)
            if at == ("metadata",):
                return None
            pattrs(c)
            args.append((at, pval(c, at)))
            c.eat(",")
        return ("call", dst, t, callee, args)
    raise SyntaxError("instruction " + s[:120])


class Module:
    def __init__(self, paths):
        self.funcs, self.globals, self.alias, self.decl = {}, {}, {}, {}
        self.noreturn = set()
        for k, p in enumerate(paths):
            self.read(open(p, errors="replace").read(), k)

    def read(self, s, k):
        # private symbols of different modules may clash: qualify them
        priv = set(re.findall(r"(?m)^(@[\w$.]+) = (?:private|internal) ", s))
        priv |= set(re.findall(r"(?m)^define (?:private|internal) [^@]*(@[\w$.]+)\(", s))
        if k:
            s = re.sub(r"@[\w$.]+", lambda m: f"{m.group(0)}.m{k}" if m.group(0) in priv else m.group(0), s)
        nr_attr = set(re.findall(r"(?m)^attributes (#\d+) = \{[^}]*\bnoreturn\b", s))
        lines = s.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            i += 1
            if l.startswith("define"):
                name = re.search(r"(@(?:\"[^\"]*\"|[\w$.]+))\(", l).group(1)
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                hdr = l
                j = hdr.index(name)
                # parameter list ends at the matching parenthesis
                d, e = 0, j + len(name)
                while True:
                    d += hdr[e] == "("
                    d -= hdr[e] == ")"
                    e += 1
                    if d == 0:
                        break
                self.funcs[name] = Func(name, hdr[j:e], body)
                if nr_attr & set(re.findall(r"#\d+", hdr[e:])):
                    self.noreturn.add(name)
            elif l.startswith("declare"):
                m = re.search(r"(@(?:\"[^\"]*\"|[\w$.]+))\(", l)
                if m and (nr_attr & set(re.findall(r"#\d+", l[m.end():])) or "panic" in m.group(1)):
                    self.noreturn.add(m.group(1))
            elif l.startswith("@"):
                m = re.match(r"(@(?:\"[^\"]*\"|[\w$.]+)) = (.*)", l)
                rest = m.group(2)
                if re.search(r"\balias\b", rest.split("@")[0]):
                    self.alias[m.group(1)] = re.search(r"ptr (@[\w$.]+)", rest).group(1)
                elif "external" not in rest.split("@")[0].split('"')[0]:
                    self.globals[m.group(1)] = rest
        # private symbols also live under their unqualified name for lookups by name
    def fn(self, name):
        while name in self.alias:
            name = self.alias[name]
        return self.funcs.get(name)

    def global_init(self, name):
        rest = self.globals[name]
        m = re.search(r"\b(constant|global) ", rest)
        body = rest[m.end():]
        m = re.search(r", (align|!|comdat|section)", body) if '"' not in body else None
        c = T(tokens(re.split(r', align \d+(?:, !|$)', body)[0]))
        t = ptype(c)
        return t, pval(c, t)
