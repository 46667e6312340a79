"""Verification-condition generator on LLVM IR.

Executes the IR rustc produced for an obligation (the obligation and the real
code of /repo, nothing else) with symbolic inputs.  Values are vectors of bits;
a bit is 0, 1 or bit i of a z3 bit-vector term, so that field extraction,
shifts and masks stay exact and syntactic.  Calls to panicking functions,
failed assertions and out-of-bounds accesses are the verification conditions:
each must be unreachable.  They are discharged by simplification, case split on
table indices, or the z3 bit-vector solver.
"""
import re, time, sys, hashlib
import numpy as np
import z3
from .llparse import *

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


class Infeasible(Exception):
    pass


CTX = z3.main_ctx()


def mask(w):
    return (1 << w) - 1


class S:
    """symbolic integer"""
    __slots__ = ("w", "bits", "_z", "rng")

    def __init__(self, bits, z=None, rng=None):
        self.w, self.bits, self._z, self.rng = len(bits), bits, z, rng

    def z(self):
        if self._z is None:
            self._z = bits2z(self.bits)
        return self._z


def bits2z(bits):
    """bits are least significant first"""
    parts = []
    i, n = 0, len(bits)
    while i < n:
        b = bits[i]
        j = i + 1
        if isinstance(b, int):
            v = b
            while j < n and isinstance(bits[j], int):
                v |= bits[j] << (j - i)
                j += 1
            parts.append(z3.BitVecVal(v, j - i))
        else:
            e, k = b
            ei = eid(e)
            while j < n and not isinstance(bits[j], int) and bits[j][1] == k + (j - i) and eid(bits[j][0]) == ei:
                j += 1
            w = j - i
            if k == 0 and w == e.size():
                parts.append(e)
            else:
                parts.append(z3.Extract(k + w - 1, k, e))
        i = j
    if len(parts) == 1:
        return parts[0]
    return z3.Concat(*reversed(parts))


def mk(bits, rng=None):
    """from a bit tuple; a plain int when constant"""
    for b in bits:
        if not isinstance(b, int):
            return S(bits, None, rng)
    v = 0
    for i, b in enumerate(bits):
        v |= b << i
    return v


def ibits(v, w):
    return tuple((v >> i) & 1 for i in range(w))


def bitsof(v, w):
    return v.bits if isinstance(v, S) else ibits(v, w)


def zof(v, w):
    return v.z() if isinstance(v, S) else z3.BitVecVal(v, w)


def zbits(e):
    return tuple((e, i) for i in range(e.size()))


def eid(e):
    try:
        return e.vid
    except AttributeError:
        e.vid = e.get_id()
        return e.vid


def samebit(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    return a[1] == b[1] and (a[0] is b[0] or eid(a[0]) == eid(b[0]))


def bk(b):
    return b if isinstance(b, int) else (eid(b[0]), b[1])


def vk(v, w):
    return tuple(bk(b) for b in bitsof(v, w))


# ---------------------------------------------------------------- normal forms
# Two kinds of named terms keep values in a normal form, so that equal values
# become the same term without a solver:
#   LIN  an exact integer linear combination of bits
#   CV   a case table over at most CVMAX bits whose entries are values
# They are z3 constants with a definition; expandz() puts the definitions back
# before anything is given to the solver.
CVMAX = 6
LINMAX = 80
LIN, LINKEY = {}, {}
CV, CVKEY = {}, {}
EXP = {}


NEG = {}


def negbit(b):
    """the complement of a bit, in a form the linear terms see through"""
    if isinstance(b, int):
        return 1 - b
    k = bk(b)
    if k not in NEG:
        e = ~(z3.Extract(b[1], b[1], b[0]) if b[0].size() > 1 else b[0])
        NEG[k] = (e, 0)
        NEG[bk(NEG[k])] = b
        NEGATED[bk(NEG[k])] = b
    return NEG[k]


NEGATED = {}


def lintake(d, b, c):
    """add c*b to the linear combination; returns the constant that results"""
    x = bk(b)
    r = 0
    if x in NEGATED:
        b = NEGATED[x]
        x = bk(b)
        r, c = c, -c
    d[x] = (b, c + (d[x][1] if x in d else 0))
    return r


def linnode(const, items, lo, hi):
    """items: sorted tuple of (key, coef); returns the named term"""
    key = (const, tuple((k, c) for k, b, c in items))
    if key not in LINKEY:
        k = max(1, hi.bit_length()) if lo >= 0 else max((-lo - 1).bit_length(), hi.bit_length(), 0) + 1
        e = z3.BitVec(f"lin!{len(LINKEY)}", k)
        LINKEY[key] = e
        LIN[eid(e)] = (const, {x: (b, c) for x, b, c in items}, lo, hi, e)
    return LINKEY[key]


def mklin(const, d, w, rng=None):
    """value of const + sum coef*bit modulo 2^w; d: key -> (bit, coef)"""
    d = {k: v for k, v in d.items() if v[1]}
    if not d:
        return const & mask(w)
    lo = const + sum(c for b, c in d.values() if c < 0)
    hi = const + sum(c for b, c in d.values() if c > 0)
    if lo < -(1 << (w - 1)) or hi > mask(w) or lo < 0 and hi >= 1 << (w - 1):
        # wraps around: reduce modulo 2^w
        h = 1 << (w - 1)
        d = {k: (b, h - (h - c) % (2 * h)) for k, (b, c) in d.items()}
        d = {k: v for k, v in d.items() if v[1]}
        const &= mask(w)
        if not d:
            return const
    # a plain bit pattern
    used, ok = {}, const >= 0
    if ok:
        for b, c in d.values():
            m = abs(c)
            p = m.bit_length() - 1
            if m & (m - 1) or p in used or (const >> p) & 1 != (c < 0):
                ok = False
                break
            used[p] = b if c > 0 else negbit(b)
    if ok:
        return mk(tuple(used[i] if i in used else (const >> i) & 1 for i in range(w)))
    t = min((c & -c).bit_length() - 1 for b, c in d.values())
    low = ibits(const & mask(t), t) if t else ()
    c0 = const >> t
    items = tuple(sorted((k, b, c >> t) for k, (b, c) in d.items()) if False else sorted(((k, b, c >> t) for k, (b, c) in d.items()), key=lambda x: x[0]))
    lo = c0 + sum(c for k, b, c in items if c < 0)
    hi = c0 + sum(c for k, b, c in items if c > 0)
    e = linnode(c0, items, lo, hi)
    hb = zbits(e)
    n = w - t
    if n <= 0:
        return mk(low[:w])
    if len(hb) < n:
        hb = hb + ((hb[-1] if lo < 0 else 0),) * (n - len(hb))
        r = (lo << t, (hi << t) | (const & mask(t)))
    else:
        exact = len(hb) == n and lo >= 0 or len(hb) <= n
        r = (lo << t, (hi << t) | (const & mask(t))) if len(hb) <= n and (lo < 0 or hi << t < 1 << (w - 1)) else None
        hb = hb[:n]
    if rng is not None:
        r = rng if r is None else (max(r[0], rng[0]), min(r[1], rng[1]))
        # a tighter range may make high bits redundant
        if r[0] >= 0 and r[1] < 1 << (w - 1):
            k = r[1].bit_length()
            return mk((low + hb)[:k] + (0,) * (w - k), r)
    return mk(low + hb, r)


def linof(v, w, wide=True):
    """(const, {key: (bit, coef)}) equal to v modulo 2^w"""
    if isinstance(v, int):
        return (signed(v, w) if wide else v), {}
    bits = v.bits
    n = len(bits)
    const, t = 0, 0
    while t < n and isinstance(bits[t], int):
        const |= bits[t] << t
        t += 1
    # low bits of a linear term?
    e, k0 = bits[t]
    i = eid(e)
    if k0 == 0 and i in LIN:
        c, d, lo, hi, _ = LIN[i]
        k = e.size()
        j = 0
        while t + j < n and j < k and not isinstance(bits[t + j], int) and bits[t + j][1] == j and eid(bits[t + j][0]) == i:
            j += 1
        rest = bits[t + j:]
        full = j == k
        if not full and not rest:
            full = True       # truncated: equal modulo 2^w
        elif full and lo < 0:
            full = all(samebit(x, bits[t + j - 1]) for x in rest)
        elif full:
            full = all(isinstance(x, int) and x == 0 for x in rest)
        elif v.rng is not None and v.rng[0] >= 0 and all(isinstance(x, int) and x == 0 for x in rest) and t == 0:
            # high bits known to be zero from the range
            full = v.rng[1] <= mask(j) and lo >= 0
            full = False
        if full:
            return const + (c << t), {x: (b, q << t) for x, (b, q) in d.items()}
    d, extra = {}, 0
    # sign extension
    top = n
    if n > 1 and not isinstance(bits[-1], int):
        while top > 1 and samebit(bits[top - 1], bits[top - 2]):
            top -= 1
    sgn = top < n
    for p in range(top):
        b = bits[p]
        c = 1 << p
        if sgn and p == top - 1:
            c = -c
        if isinstance(b, int):
            const = (const & ~(1 << p)) | (b << p)
            continue
        extra += lintake(d, b, c)
    const += extra
    if n and isinstance(bits[-1], int) and bits[-1] == 1 and wide:
        const -= 1 << n
    return const, d


def linadd(a, b, w, sb=1, rng=None):
    """a + sb*b in normal form, or None"""
    ca, da = linof(a, w)
    cb, db = linof(b, w)
    if len(da) + len(db) > LINMAX:
        return None
    d = dict(da)
    for k, (x, c) in db.items():
        d[k] = (x, d[k][1] + sb * c) if k in d else (x, sb * c)
    const = ca + sb * cb
    # a non-negative value stays non-negative
    if rng is not None and rng[0] >= 0:
        lo = const + sum(c for x, c in d.values() if c < 0)
        if lo < 0 and const < 0 and not any(c < 0 for x, c in d.values()):
            const &= mask(w)
    return mklin(const, d, w, rng)


def signbit(a, b, w, sg):
    """the bit a < b, as the sign of the exact difference; None when not linear"""
    def ex(v):
        if isinstance(v, int):
            return (signed(v, w) if sg else v), {}
        c, d = linof(v, w, wide=sg)
        # exact interpretation only
        lo = c + sum(x for _, x in d.values() if x < 0)
        hi = c + sum(x for _, x in d.values() if x > 0)
        L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, mask(w))
        if lo < L or hi > H:
            # plain bits are always exact
            d, c = {}, 0
            for p, b in enumerate(v.bits):
                q = (1 << p) if not (sg and p == w - 1) else -(1 << p)
                if isinstance(b, int):
                    c += q * b
                else:
                    c += lintake(d, b, q)
        return c, d
    ca, da = ex(a)
    cb, db = ex(b)
    if len(da) + len(db) > LINMAX:
        return None
    d = dict(da)
    for k, (x, c) in db.items():
        d[k] = (x, d[k][1] - c) if k in d else (x, -c)
    d = {k: v for k, v in d.items() if v[1]}
    c = ca - cb
    lo = c + sum(x for _, x in d.values() if x < 0)
    hi = c + sum(x for _, x in d.values() if x > 0)
    if hi < 0:
        return 1
    if lo >= 0:
        return 0
    if not d:
        return int(c < 0)
    flip = d[min(d)][1] < 0
    if flip:
        c, d = -c - 1, {k: (x, -q) for k, (x, q) in d.items()}
    n = max(hi.bit_length(), (-lo).bit_length()) + 2
    r = mklin(c, d, n)
    r = mk((bitsof(r, n)[-1],))
    return binop("xor", 1, r, 1) if flip else r


def cvbase(vals):
    """base bits when some bit of the values is a case table"""
    u, hit, seen = {}, False, set()
    for v in vals:
        if isinstance(v, S):
            for b in v.bits:
                if not isinstance(b, int):
                    i = eid(b[0])
                    if i in seen:
                        continue
                    seen.add(i)
                    if i in CV:
                        hit = True
                        for x in CV[i][0]:
                            u.setdefault(bk(x), x)
                        if len(u) > CVMAX:
                            return None
    return [u[k] for k in sorted(u)] if hit else None


def cvcases(base, v):
    """the value under every assignment of the base bits"""
    n = len(base)
    if not isinstance(v, S):
        return [v] * (1 << n)
    pos = {bk(b): i for i, b in enumerate(base)}
    proj = {}
    out = []
    for m in range(1 << n):
        bits = []
        for b in v.bits:
            if not isinstance(b, int):
                k = bk(b)
                if k in pos:
                    b = (m >> pos[k]) & 1
                elif k[0] in CV:
                    bs, ents, _ = CV[k[0]]
                    ps = proj.get(k[0])
                    if ps is None:
                        ps = proj[k[0]] = [pos[bk(x)] for x in bs]
                    j = 0
                    for i, q in enumerate(ps):
                        j |= ((m >> q) & 1) << i
                    b = ents[j][k[1]]
            bits.append(b)
        r = mk(tuple(bits), v.rng)
        out.append(r)
    return out


def mkcv(base, vals, w):
    keys = [vk(v, w) for v in vals]
    i = 0
    base = list(base)
    while i < len(base):
        s = 1 << i
        if all(keys[m] == keys[m | s] for m in range(len(keys)) if not m & s):
            sel = [m for m in range(len(keys)) if not m & s]
            keys, vals = [keys[m] for m in sel], [vals[m] for m in sel]
            del base[i]
        else:
            i += 1
    if not base:
        return vals[0]
    bits = [bitsof(v, w) for v in vals]
    out = list(bits[0])
    var = [p for p in range(w) if any(k[p] != keys[0][p] for k in keys)]
    # a single base bit selected as it is
    col = {}
    node = []
    for p in var:
        c = tuple(k[p] for k in keys)
        if len(base) == 1 and c == (0, 1):
            out[p] = base[0]
        elif c in col:
            out[p] = col[c]
        else:
            node.append(p)
            col[c] = None
    if node:
        ents = [tuple(b[p] for p in node) for b in bits]
        key = (tuple(bk(b) for b in base), tuple(tuple(k[p] for p in node) for k in keys))
        if key not in CVKEY:
            e = z3.BitVec(f"cv!{len(CVKEY)}", len(node))
            CVKEY[key] = e
            CV[eid(e)] = (base, ents, e)
        e = CVKEY[key]
        for j, p in enumerate(node):
            out[p] = (e, j)
            col[tuple(k[p] for k in keys)] = (e, j)
        for p in var:
            c = tuple(k[p] for k in keys)
            if c in col and col[c] is not None:
                out[p] = col[c]
    rs = [srange(v, w) for v in vals]
    return mk(tuple(out), (min(r[0] for r in rs), max(r[1] for r in rs)))


def pointwise(f, w, *vals):
    """apply f to the cases of the values; None when there are no case tables"""
    base = cvbase(vals)
    if base is None:
        return None
    cs = [cvcases(base, v) for v in vals]
    return mkcv(base, [f(*x) for x in zip(*cs)], w)


def bitdef(b):
    if isinstance(b, int):
        return z3.BitVecVal(b, 1)
    return z3.Extract(b[1], b[1], b[0]) if b[0].size() > 1 else b[0]


def definition(e):
    """z3 definition of a named term, one level"""
    i = eid(e)
    if i in LIN:
        c, d, lo, hi, _ = LIN[i]
        k = e.size()
        acc = z3.BitVecVal(c, k)
        # group runs of bits of one term with doubling coefficients
        it = sorted(d.items(), key=lambda x: x[0])
        j = 0
        while j < len(it):
            (i0, b0), (bit, q) = it[j]
            n = 1
            while j + n < len(it) and it[j + n][0] == (i0, b0 + n) and it[j + n][1][1] == q << n:
                n += 1
            t = z3.Extract(b0 + n - 1, b0, bit[0]) if n < bit[0].size() else bit[0]
            t = zxt(t, k) if t.size() <= k else z3.Extract(k - 1, 0, t)
            acc = acc + (t if q == 1 else z3.BitVecVal(q, k) * t)
            j += n
        return acc
    base, ents, _ = CV[i]

    def go(k, m):
        if k < 0:
            return bits2z(ents[m])
        x, y = go(k - 1, m), go(k - 1, m | 1 << k)
        return x if x.eq(y) else z3.If(bitdef(base[k]) == 1, y, x)
    return go(len(base) - 1, 0)


def expandz(e):
    """the term with all named terms replaced by their definitions"""
    todo = [e]
    while todo:
        x = todo[-1]
        i = x.get_id()
        if i in EXP:
            todo.pop()
            continue
        if i in LIN or i in CV:
            d = definition(x)
            j = d.get_id()
            if j in EXP:
                EXP[i] = (EXP[j][0], x, d)
                todo.pop()
            else:
                todo.append(d)
                # keep the definition alive
                EXP.setdefault(("d", i), (d, x))
            continue
        ch = x.children()
        miss = [c for c in ch if c.get_id() not in EXP]
        if miss:
            todo += miss
            continue
        new = [EXP[c.get_id()][0] for c in ch]
        if all(a.eq(b) for a, b in zip(ch, new)):
            y = x
        else:
            y = z3.substitute(x, *[(a, b) for a, b in zip(ch, new) if not a.eq(b)])
        EXP[i] = (y, x)
        todo.pop()
    return EXP[e.get_id()][0]


def sig(bits):
    n = len(bits)
    while n and isinstance(bits[n - 1], int) and bits[n - 1] == 0:
        n -= 1
    return n


def lowz(bits):
    n = 0
    while n < len(bits) and isinstance(bits[n], int) and bits[n] == 0:
        n += 1
    return n


def urange(v, w):
    if isinstance(v, int):
        return v, v
    lo = hi = 0
    for i, b in enumerate(v.bits):
        if isinstance(b, int):
            lo |= b << i
            hi |= b << i
        else:
            hi |= 1 << i
    if v.rng is not None and v.rng[0] >= 0:
        lo, hi = max(lo, v.rng[0]), min(hi, v.rng[1])
    return lo, hi


def srange(v, w):
    if isinstance(v, int):
        v = v - (1 << w) if v >> (w - 1) else v
        return v, v
    top = v.bits[-1]
    if isinstance(top, int) and top == 0:
        lo, hi = urange(S(v.bits), w)
    elif isinstance(top, int):
        lo, hi = urange(S(v.bits), w)
        lo, hi = lo - (1 << w), hi - (1 << w)
    else:
        # sign extended short values
        k = w
        while k > 1 and samebit(v.bits[k - 1], v.bits[k - 2]):
            k -= 1
        lo, hi = -(1 << (k - 1)), (1 << (k - 1)) - 1
    if v.rng is not None:
        lo, hi = max(lo, v.rng[0]), min(hi, v.rng[1])
    return lo, hi


def signed(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def node(e, w, rng=None):
    """value of a z3 term, zero extended to w bits"""
    if z3.is_bv_value(e):
        return e.as_long()
    b = zbits(e)
    if rng is not None and rng[0] >= 0:
        k = max(1, rng[1].bit_length())
        if k < len(b):
            b = b[:k]
    return mk(b + (0,) * (w - len(b)), rng)


def fitbits(v, w, rng):
    return v


def bvz(e, bits, k):
    """the low k bits as a z3 term"""
    return bits2z(bits[:k])


COMMUT = {"add", "mul", "and", "or", "xor"}


def trivial(op, a, b):
    """bit-wise operations with constants work on the bits of a case table directly"""
    return op in ("and", "or") and (isinstance(a, int) or isinstance(b, int))


def lowlin(bits, w):
    """the low bits of a linear term: the linear term modulo that power of two"""
    n = len(bits)
    if n and not isinstance(bits[0], int) and bits[0][1] == 0:
        i = eid(bits[0][0])
        if i in LIN and bits[0][0].size() > n and all(not isinstance(b, int) and b[1] == j and eid(b[0]) == i for j, b in enumerate(bits)):
            c, d, lo, hi, _ = LIN[i]
            return bitsof(mklin(c, d, n), n) + (0,) * (w - n)
    return bits + (0,) * (w - n)


def binop(op, w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        m = mask(w)
        if op == "add":
            return (a + b) & m
        if op == "sub":
            return (a - b) & m
        if op == "mul":
            return (a * b) & m
        if op == "and":
            return a & b
        if op == "or":
            return a | b
        if op == "xor":
            return a ^ b
        if op == "shl":
            return (a << b) & m if b < w else 0
        if op == "lshr":
            return a >> b if b < w else 0
        if op == "ashr":
            return (signed(a, w) >> min(b, w - 1)) & m
        if b == 0:
            raise Unsupported("division by zero")
        if op == "udiv":
            return a // b
        if op == "urem":
            return a % b
        x, y = signed(a, w), signed(b, w)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return (q if op == "sdiv" else x - q * y) & m
    if op == "add" and (isinstance(a, int) or isinstance(b, int)) and w >= 32:
        x, c = (b, a) if isinstance(a, int) else (a, b)
        l = (c & -c).bit_length() - 1 if c else w
        # the bits of a table a large constant is added to: a table over just these
        up = {bk(y): y for y in x.bits[l:] if not isinstance(y, int)}
        if 0 < len(up) <= 3 and l >= 16:
            base = [up[k] for k in sorted(up)]
            hi = mk((0,) * l + x.bits[l:])
            r = mkcv(base, [(v + c) & mask(w) for v in cvcases(base, hi)], w)
            return mk(x.bits[:l] + bitsof(r, w)[l:])
    if not (op in ("shl", "lshr", "ashr") and isinstance(b, int)) and not trivial(op, a, b):
        r = pointwise(lambda x, y: binop(op, w, x, y), w, a, b)
        if r is not None:
            return r
    A, B = bitsof(a, w), bitsof(b, w)
    if op == "and":
        for x, y in ((a, B), (b, A)):
            if isinstance(x, int) and x & (x + 1) == 0 and x.bit_length() < w:
                return mk(lowlin(y[:x.bit_length()], w))
    if op in ("and", "or", "xor"):
        out, need = [], []
        for i in range(w):
            x, y = A[i], B[i]
            if isinstance(y, int):
                x, y = y, x
            if isinstance(x, int):
                if op == "and":
                    out.append(y if x else 0)
                elif op == "or":
                    out.append(1 if x else y)
                elif x == 0:
                    out.append(y)
                elif isinstance(y, int):
                    out.append(1 - y)
                else:
                    out.append(negbit(y))
            elif samebit(x, y):
                out.append(0 if op == "xor" else x)
            else:
                out.append(None)
                need.append(i)
        if need:
            # one node over the contiguous range that needs one
            lo, hi = need[0], need[-1] + 1
            za, zb = bits2z(A[lo:hi]), bits2z(B[lo:hi])
            if za.get_id() > zb.get_id():
                za, zb = zb, za
            e = za & zb if op == "and" else za | zb if op == "or" else za ^ zb
            e = z3.simplify(e) if hi - lo == 1 else e
            for i in need:
                out[i] = (e, i - lo)
        return mk(tuple(out))
    if op in ("shl", "lshr", "ashr"):
        if isinstance(b, int):
            b = min(b, w)
            if op == "shl":
                return mk((0,) * b + A[:w - b])
            fill = 0 if op == "lshr" else A[-1]
            r = None
            if op == "ashr" or (isinstance(a, S) and a.rng and a.rng[0] >= 0):
                lo, hi = srange(a, w) if op == "ashr" else a.rng
                if b < w:
                    r = (lo >> b, hi >> b)
            return mk(A[b:] + (fill,) * b, r)
        SPLIT.append(b)
        # shift by a symbolic amount: selection over the possible amounts
        lo, hi = urange(b, w)
        fb = {bk(x): x for x in b.bits if not isinstance(x, int)}
        if len(fb) <= CVMAX:
            base = [fb[k] for k in sorted(fb)]
            return mkcv(base, [binop(op, w, x, y) for x, y in zip(cvcases(base, a), cvcases(base, b))], w)
        if hi - lo <= 64:
            r = None
            for k in range(lo, min(hi, w - 1) + 1):
                x = binop(op, w, a, k)
                r = x if r is None else select(eqv(b, k, w), x, r, w)
            return r
        za, zb = zof(a, w), zof(b, w)
        return node(za << zb if op == "shl" else z3.LShR(za, zb) if op == "lshr" else za >> zb, w)
    if op == "add":
        if a == 0 and isinstance(a, int):
            return b
        if b == 0 and isinstance(b, int):
            return a
        # no carries: plain union of bits
        if all((isinstance(x, int) and x == 0) or (isinstance(y, int) and y == 0) for x, y in zip(A, B)):
            return binop("or", w, a, b)
        q = linadd(a, b, w, 1, sumrange(a, b, w))
        if q is not None:
            return q
        l = min(max(lowz(A), lowz(B)), w)
        low = A[:l] if lowz(B) >= l else B[:l]
        ra, rb = srange(a, w), srange(b, w)
        rng = (ra[0] + rb[0], ra[1] + rb[1])
        if rng[0] < -(1 << (w - 1)) or rng[1] >= 1 << (w - 1):
            rng = None
        ka, kb = sig(A), sig(B)
        k = min(w, max(ka, kb) + 1)
        e = addz(bits2z(A[l:k]), bits2z(B[l:k]), k - l)
        hb = zbits(e)
        return mk(low + hb + (0,) * (w - k), rng)
    if op == "sub":
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(a, S) and isinstance(b, S) and all(samebit(x, y) for x, y in zip(A, B)):
            return 0
        ra, rb = srange(a, w), srange(b, w)
        rng = (ra[0] - rb[1], ra[1] - rb[0])
        if rng[0] < -(1 << (w - 1)) or rng[1] >= 1 << (w - 1):
            rng = None
        q = linadd(a, b, w, -1, rng)
        if q is not None:
            return q
        return narrow(zof(a, w) - zof(b, w), w, rng)
    if op == "mul":
        for x, y in ((a, b), (b, a)):
            if isinstance(x, int):
                if x == 0:
                    return 0
                if x & (x - 1) == 0:
                    k = x.bit_length() - 1
                    r = binop("shl", w, y, k)
                    if isinstance(r, S):
                        ry = srange(y, w)
                        q = (ry[0] << k, ry[1] << k)
                        if -(1 << (w - 1)) <= q[0] and q[1] < 1 << (w - 1):
                            r = S(r.bits, r._z, q)
                    return r
                c, d = linof(y, w)
                if len(d) <= LINMAX:
                    k = signed(x, w)
                    ry = srange(y, w)
                    cs = (ry[0] * k, ry[1] * k)
                    rg = (min(cs), max(cs))
                    if rg[0] < -(1 << (w - 1)) or rg[1] >= 1 << (w - 1):
                        rg = None
                    return mklin(c * k, {i: (b, q * k) for i, (b, q) in d.items()}, w, rg)
        ra, rb = srange(a, w), srange(b, w)
        cs = [p * q for p in ra for q in rb]
        rng = (min(cs), max(cs))
        if rng[0] < -(1 << (w - 1)) or rng[1] >= 1 << (w - 1):
            rng = None
        ka, kb = sig(A), sig(B)
        k = min(w, ka + kb)
        if rng and rng[0] >= 0:
            k = min(k, max(1, rng[1].bit_length()))
        za, zb = zxt(bits2z(A[:min(ka, k)]), k), zxt(bits2z(B[:min(kb, k)]), k)
        if z3.is_bv_value(zb) or za.get_id() > zb.get_id() and not z3.is_bv_value(za):
            za, zb = zb, za
        return mk(zbits(za * zb) + (0,) * (w - k), rng)
    if op in ("udiv", "urem", "sdiv", "srem"):
        if isinstance(b, int) and b & (b - 1) == 0 and b and op[0] == "u":
            k = b.bit_length() - 1
            return binop("lshr", w, a, k) if op == "udiv" else mk(A[:k] + (0,) * (w - k))
        if op[0] == "s":
            if srange(a, w)[0] >= 0 and srange(b, w)[0] >= 0:
                return binop("u" + op[1:], w, a, b)
            if isinstance(b, int) and signed(b, w) > 0:
                lo, hi = srange(a, w)
                d = signed(b, w)
                tq = lambda x: abs(x) // d * (1 if x >= 0 else -1)
                k = max((-lo).bit_length(), hi.bit_length(), d.bit_length()) + 1
                if k < w:
                    za, zb = bits2z(A[:k]), z3.BitVecVal(d, k)
                    e = za / zb if op == "sdiv" else z3.SRem(za, zb)
                    hb = zbits(e)
                    return mk(hb + (hb[-1],) * (w - k), (tq(lo), tq(hi)) if op == "sdiv" else None)
            za, zb = zof(a, w), zof(b, w)
            return node(za / zb if op == "sdiv" else z3.SRem(za, zb), w)
        la, ha = urange(a, w)
        lb, hb = urange(b, w)
        k = max(1, ha.bit_length(), hb.bit_length())
        za, zb = bits2z(A[:k]), bits2z(B[:k])
        e = z3.UDiv(za, zb) if op == "udiv" else z3.URem(za, zb)
        rng = (la // max(hb, 1), ha // max(lb, 1)) if op == "udiv" else (0, min(ha, hb - 1 if hb else 0))
        if k == w and rng[1] >= 1 << (w - 1):
            rng = None
        return node(e, w, rng)
    raise Unsupported(op)


def sumrange(a, b, w):
    ra, rb = srange(a, w), srange(b, w)
    r = (ra[0] + rb[0], ra[1] + rb[1])
    return None if r[0] < -(1 << (w - 1)) or r[1] >= 1 << (w - 1) else r


def zxt(e, k):
    return e if e.size() == k else z3.ZeroExt(k - e.size(), e)


def addz(a, b, w):
    if a.get_id() > b.get_id():
        a, b = b, a
    return a + b


def narrow(e, w, rng):
    if rng is None:
        return node(e, w)
    if rng[0] >= 0:
        k = max(1, rng[1].bit_length())
        return mk(zbits(e)[:k] + (0,) * (w - k), rng)
    k = max((-rng[0]).bit_length(), rng[1].bit_length()) + 1
    if k < w:
        b = zbits(e)[:k]
        return mk(b + (b[-1],) * (w - k), rng)
    return node(e, w, rng)


def b2s(c):
    """z3 Bool -> one-bit value"""
    if z3.is_true(c):
        return 1
    if z3.is_false(c):
        return 0
    # If(e == 1, 1, 0) collapses
    return S((((z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))), 0),))


def s2b(v):
    """one-bit value -> z3 Bool"""
    if isinstance(v, int):
        return z3.BoolVal(v == 1)
    e, i = v.bits[0]
    if e.decl().kind() == z3.Z3_OP_ITE and e.size() == 1:
        x, y = e.arg(1), e.arg(2)
        if z3.is_bv_value(x) and z3.is_bv_value(y) and x.as_long() == 1 and y.as_long() == 0:
            return e.arg(0)
    return v.z() == z3.BitVecVal(1, 1)


def eqv(a, b, w):
    if isinstance(a, int) and isinstance(b, int):
        return int(a == b)
    A, B = bitsof(a, w), bitsof(b, w)
    pa, pb = [], []
    for x, y in zip(A, B):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return 0
        elif not samebit(x, y):
            pa.append(x)
            pb.append(y)
    if not pa:
        return 1
    ra, rb = srange(a, w), srange(b, w)
    if ra[1] < rb[0] or rb[1] < ra[0]:
        return 0
    r = pointwise(lambda x, y: eqv(x, y, len(pa)), 1, mk(tuple(pa)), mk(tuple(pb)))
    if r is not None:
        return r
    if len(pa) == 1:
        x, y = pa[0], pb[0]
        if isinstance(x, int):
            x, y = y, x
        if isinstance(y, int):
            return S((x,)) if y == 1 else binop("xor", 1, S((x,)), 1)
    za, zb = bits2z(tuple(pa)), bits2z(tuple(pb))
    if za.get_id() > zb.get_id():
        za, zb = zb, za
    return b2s(za == zb)


def icmp(pr, w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        if pr[0] == "s":
            a, b = signed(a, w), signed(b, w)
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pr if pr in ("eq", "ne") else pr[1:]])
    if pr == "eq":
        return eqv(a, b, w)
    if pr == "ne":
        return binop("xor", 1, eqv(a, b, w), 1)
    if pr[1:] in ("gt", "ge"):
        return icmp(pr[0] + {"gt": "lt", "ge": "le"}[pr[1:]], w, b, a)
    if pr[1:] == "le":
        return binop("xor", 1, icmp(pr[0] + "lt", w, b, a), 1)
    # lt
    ra, rb = (srange(a, w), srange(b, w)) if pr[0] == "s" else (urange(a, w), urange(b, w))
    if ra[1] < rb[0]:
        return 1
    if ra[0] >= rb[1]:
        return 0
    if pr == "ult" and w >= 32 and isinstance(b, int) and b >= 1 << 16 and b & (b - 1) == 0:
        # a < 2^k: a table over just the high bits
        k = b.bit_length() - 1
        up = {bk(y): y for y in a.bits[k:] if not isinstance(y, int)}
        if 0 < len(up) <= CVMAX:
            base = [up[i] for i in sorted(up)]
            hi = mk((0,) * k + a.bits[k:])
            return mkcv(base, [int(v < b) for v in cvcases(base, hi)], 1)
    r = pointwise(lambda x, y: icmp(pr, w, x, y), 1, a, b)
    if r is not None:
        return r
    A, B = bitsof(a, w), bitsof(b, w)
    if pr[0] == "s":
        if isinstance(b, int) and b == 0:
            return mk((A[-1],))
        if ra[0] >= 0 and rb[0] >= 0:
            return icmp("ult", w, a, b)
        r = signbit(a, b, w, True)
        if r is not None:
            return r
        k = max(max((-x).bit_length(), y.bit_length()) for x, y in (ra, rb)) + 1
        k = min(k, w)
        return b2s(bits2z(A[:k]) < bits2z(B[:k]))
    if isinstance(b, int) and b and b & (b - 1) == 0:
        # a < 2^k  <=>  high bits are zero
        k = b.bit_length() - 1
        return eqv(mk(A[k:]), 0, w - k)
    r = signbit(a, b, w, False)
    if r is not None:
        return r
    k = max(1, sig(A), sig(B))
    return b2s(z3.ULT(bits2z(A[:k]), bits2z(B[:k])))


def select(c, a, b, w):
    if isinstance(c, int):
        return a if c else b
    if vk(a, w) == vk(b, w):
        return a
    r = pointwise(lambda x, y, z: select(x, y, z, w), w, c, a, b)
    if r is not None:
        return r
    A, B = bitsof(a, w), bitsof(b, w)
    idx = [i for i in range(w) if not samebit(A[i], B[i])]
    if not idx:
        return a
    if len(idx) == 1 and isinstance(A[idx[0]], int) and isinstance(B[idx[0]], int):
        i = idx[0]
        bit = c.bits[0] if A[i] == 1 else binop("xor", 1, c, 1).bits[0]
        return mk(A[:i] + (bit,) + A[i + 1:])
    if len(idx) == 1 and (isinstance(A[idx[0]], int) or isinstance(B[idx[0]], int)):
        i = idx[0]
        x, y, q = A[i], B[i], c
        if isinstance(y, int):
            x, y, q = y, x, mk((negbit(c.bits[0]),))
        # q ? const x : y
        if x:
            r = binop("or", 1, q, mk((y,)))
        else:
            r = binop("and", 1, mk((negbit(bitsof(q, 1)[0]),)), mk((y,)))
        return mk(A[:i] + bitsof(r, 1) + A[i + 1:])
    if TABSEL and len(idx) > 1:
        key = (bk(c.bits[0]), vk(a, w), vk(b, w))
        if key in SELMEMO:
            r = SELMEMO[key][0]
            return r if r is not None else plainselect(c, a, b, A, B, idx, w)
        r = tabselect(c, A, B, w)
        SELMEMO[key] = (r, a, b, c)
        if r is not None:
            return r
    return plainselect(c, a, b, A, B, idx, w)


SELMEMO = {}


def tabselect(c, A, B, w):
    if True:
        supp = [x for x in A + B + c.bits if not isinstance(x, int)]
        base = find_base(supp)
        if base is not None:
            base = tuple(base[k] for k in sorted(base))
            ev = NumEval(base)
            return table_value(base, np.where(ev.bits(c.bits) != 0, ev.bits(A), ev.bits(B)), w)
    return None


def plainselect(c, a, b, A, B, idx, w):
    # one node over the differing bits
    cb = s2b(c)
    first, pick = {}, []
    for i in idx:
        k = (bk(A[i]), bk(B[i]))
        if k not in first:
            first[k] = len(pick)
            pick.append(i)
    e = z3.If(cb, bits2z(tuple(A[i] for i in pick)), bits2z(tuple(B[i] for i in pick)))
    out = list(A)
    for i in idx:
        out[i] = (e, first[bk(A[i]), bk(B[i])])
    # keep sign extension visible
    ra, rb = srange(a, w), srange(b, w)
    rng = (min(ra[0], rb[0]), max(ra[1], rb[1]))
    return mk(tuple(out), rng)


TABSEL = []  # non-empty: tabulate selections that depend on at most 16 bits
SPLIT = []  # index terms seen while executing: candidates for case splits


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o, self.off = o, off


class Rel:
    """32-bit distance from a table to a target"""
    __slots__ = ("p", "o")

    def __init__(self, p, o):
        self.p, self.o = p, o


class PB:  # byte i of a stored pointer
    __slots__ = ("p", "i")

    def __init__(self, p, i):
        self.p, self.i = p, i


# ---------------------------------------------------------------- floats
class FS:
    """symbolic f32: a table over at most 16 base bits"""
    __slots__ = ("base", "tab")

    def __init__(self, base, tab):
        self.base, self.tab = base, tab


class BS(FS):
    """boolean table"""


def bkey(b):
    return (eid(b[0]), b[1])


def umask(w):
    return np.uint64(mask(w))


class NumEval:
    """numeric value of z3 terms for all assignments of the base bits at once"""

    def __init__(self, base):
        self.n = 1 << len(base)
        idx = np.arange(self.n, dtype=np.uint64)
        self.bit = {bkey(b): (idx >> np.uint64(k)) & np.uint64(1) for k, b in enumerate(base)}
        self.memo = {}

    def bits(self, bits):
        r = np.zeros(self.n, dtype=np.uint64)
        for i, b in enumerate(bits):
            if isinstance(b, int):
                if b:
                    r |= np.uint64(1 << i)
            else:
                r |= self.one(b) << np.uint64(i)
        return r

    def one(self, b):
        k = bkey(b)
        if k in self.bit:
            return self.bit[k]
        v = (self.term(b[0]) >> np.uint64(b[1])) & np.uint64(1)
        self.bit[k] = v
        return v

    def term(self, e):
        i = e.get_id()
        if i in self.memo:
            return self.memo[i]
        # all bits of the term known
        if z3.is_bv(e) and all((i, k) in self.bit for k in range(e.size())):
            r = np.zeros(self.n, dtype=np.uint64)
            for k in range(e.size()):
                r |= self.bit[(i, k)] << np.uint64(k)
            self.memo[i] = r
            return r
        d = e.decl().kind()
        u = np.uint64
        if i in LIN:
            c, ds, lo, hi, _ = LIN[i]
            r = np.full(self.n, c, dtype=np.int64)
            for b, q in ds.values():
                r = r + np.int64(q) * self.one(b).astype(np.int64)
            r = r.astype(np.uint64) & umask(e.size())
        elif i in CV:
            bs, ents, _ = CV[i]
            j = np.zeros(self.n, dtype=np.uint64)
            for k, b in enumerate(bs):
                j |= self.one(b) << u(k)
            r = np.zeros(self.n, dtype=np.uint64)
            for m, en in enumerate(ents):
                r = np.where(j == u(m), self.bits(en), r)
        elif z3.is_bv_value(e):
            r = np.full(self.n, e.as_long(), dtype=np.uint64)
        elif z3.is_true(e) or z3.is_false(e):
            r = np.full(self.n, int(z3.is_true(e)), dtype=np.uint64)
        elif d == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            x = e.arg(0)
            if all((x.get_id(), k) in self.bit for k in range(lo, hi + 1)):
                r = np.zeros(self.n, dtype=np.uint64)
                for k in range(lo, hi + 1):
                    r |= self.bit[(x.get_id(), k)] << u(k - lo)
            else:
                r = (self.term(x) >> u(lo)) & umask(hi - lo + 1)
        else:
            a = [self.term(x) for x in e.children()]
            w = e.size() if z3.is_bv(e) else 1
            aw = e.arg(0).size() if e.num_args() and z3.is_bv(e.arg(0)) else 1
            if w > 63 or aw > 63:
                raise Unsupported("wide float argument")
            m = umask(w)

            def sg(x):
                return (x.astype(np.int64) ^ np.int64(1 << (aw - 1))) - np.int64(1 << (aw - 1))
            if d == z3.Z3_OP_CONCAT:
                r = np.zeros(self.n, dtype=np.uint64)
                for x, c in zip(a, e.children()):
                    r = (r << u(c.size())) | x
            elif d == z3.Z3_OP_BADD:
                r = sum(a[1:], a[0]) & m
            elif d == z3.Z3_OP_BSUB:
                r = (a[0] - a[1]) & m
            elif d == z3.Z3_OP_BMUL:
                r = a[0]
                for x in a[1:]:
                    r = r * x
                r &= m
            elif d == z3.Z3_OP_BAND:
                r = a[0]
                for x in a[1:]:
                    r = r & x
            elif d == z3.Z3_OP_BOR:
                r = a[0]
                for x in a[1:]:
                    r = r | x
            elif d == z3.Z3_OP_BXOR:
                r = a[0]
                for x in a[1:]:
                    r = r ^ x
            elif d == z3.Z3_OP_BNOT:
                r = ~a[0] & m
            elif d == z3.Z3_OP_BNEG:
                r = (u(0) - a[0]) & m
            elif d == z3.Z3_OP_ITE:
                r = np.where(a[0] != 0, a[1], a[2])
            elif d == z3.Z3_OP_EQ:
                r = (a[0] == a[1]).astype(np.uint64)
            elif d == z3.Z3_OP_NOT:
                r = u(1) - a[0]
            elif d == z3.Z3_OP_AND:
                r = a[0]
                for x in a[1:]:
                    r = r & x
            elif d == z3.Z3_OP_OR:
                r = a[0]
                for x in a[1:]:
                    r = r | x
            elif d == z3.Z3_OP_ULT:
                r = (a[0] < a[1]).astype(np.uint64)
            elif d == z3.Z3_OP_ULEQ:
                r = (a[0] <= a[1]).astype(np.uint64)
            elif d == z3.Z3_OP_UGT:
                r = (a[0] > a[1]).astype(np.uint64)
            elif d == z3.Z3_OP_UGEQ:
                r = (a[0] >= a[1]).astype(np.uint64)
            elif d == z3.Z3_OP_SLT:
                r = (sg(a[0]) < sg(a[1])).astype(np.uint64)
            elif d == z3.Z3_OP_SLEQ:
                r = (sg(a[0]) <= sg(a[1])).astype(np.uint64)
            elif d == z3.Z3_OP_ZERO_EXT:
                r = a[0]
            elif d == z3.Z3_OP_SIGN_EXT:
                r = sg(a[0]).astype(np.uint64) & m
            elif d == z3.Z3_OP_UNINTERPRETED and e.decl().name() in TABLES:
                r = TABLES[e.decl().name()][1][a[0].astype(np.int64)].astype(np.uint64)
            else:
                raise Unsupported("numeric " + e.decl().name())
        self.memo[i] = r
        return r


def leafbits(e, lo, hi):
    k = (eid(e), lo, hi)
    if k not in LEAF:
        LEAF[k] = (leafbits0(e, lo, hi), e)
    return LEAF[k][0]


def leafbits0(e, lo, hi):
    """symbolic bits a term's bits lo..hi directly depend on (one step)"""
    d = e.decl().kind()
    i = eid(e)
    if i in LIN:
        return {k: b for k, (b, c) in LIN[i][1].items()}
    if i in CV:
        bs, ents, _ = CV[i]
        return {bk(b): b for b in list(bs) + [x for en in ents for x in en[lo:hi + 1] if not isinstance(x, int)]}
    if e.num_args() == 0:
        return None
    out = {}

    def go(x, l, h):
        if z3.is_bv_value(x) or z3.is_true(x) or z3.is_false(x):
            return
        if z3.is_bool(x):
            for y in x.children():
                go(y, 0, y.size() - 1 if z3.is_bv(y) else 0)
            return
        k = x.decl().kind()
        if k == z3.Z3_OP_CONCAT:
            pos = x.size()
            for y in x.children():
                pos -= y.size()
                a, b = max(l, pos), min(h, pos + y.size() - 1)
                if a <= b:
                    go(y, a - pos, b - pos)
        elif k == z3.Z3_OP_EXTRACT:
            go(x.arg(0), x.params()[1] + l, x.params()[1] + h)
        elif k == z3.Z3_OP_ZERO_EXT:
            go(x.arg(0), l, min(h, x.arg(0).size() - 1)) if l < x.arg(0).size() else None
        else:
            for i in range(l, h + 1):
                out[(x.get_id(), i)] = (x, i)

    if d in (z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT, z3.Z3_OP_ZERO_EXT):
        go(e, lo, hi)
    else:
        for y in e.children():
            go(y, 0, y.size() - 1 if z3.is_bv(y) else 0)
    return out


def find_base(bits, must=()):
    best = find_base0(bits, must)
    if best:
        # bits that the others determine
        while True:
            for k in sorted(best, key=lambda k: (rank(best[k][0]), k), reverse=True):
                rest = {x for x in best if x != k}
                if best[k][0].num_args() + (k[0] in CV) + (k[0] in LIN) and dep(best[k], rest, [5000], {}):
                    best = {x: best[x] for x in rest}
                    break
            else:
                break
    return best


def dep(b, have, budget, memo, top=True):
    """is the bit determined by the bits in `have`?"""
    if isinstance(b, int) or not top and bk(b) in have:
        return True
    k = bk(b)
    if k in memo:
        return memo[k]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    memo[k] = False
    r = leafbits(b[0], b[1], b[1])
    memo[k] = r is not None and all(dep(x, have, budget, memo, False) for x in r.values())
    return memo[k]


RANK = {}


def rank(e):
    """height of a term, through the named terms"""
    todo = [e]
    while todo:
        x = todo[-1]
        i = eid(x)
        if i in RANK:
            todo.pop()
            continue
        if i in LIN:
            cs = [b[0] for b, c in LIN[i][1].values()]
        elif i in CV:
            cs = [b[0] for b in CV[i][0]] + [b[0] for en in CV[i][1] for b in en if not isinstance(b, int)]
        else:
            cs = x.children()
        new = [c for c in cs if eid(c) not in RANK]
        if new:
            todo += new
        else:
            RANK[i] = (1 + max((RANK[eid(c)][0] for c in cs), default=0), x)
            todo.pop()
    return RANK[eid(e)][0]


def find_base0(bits, must=(), width=64):
    """at most 16 bits that determine `bits`, keeping the bits in `must` as they are"""
    keep = {bkey(b) for b in must}
    front = {bkey(b): b for b in bits if not isinstance(b, int)}
    best = None
    for _ in range(400):
        if len(front) <= 16 and (best is None or len(front) <= len(best)):
            best = dict(front)
            if all(k in keep for k in front):
                return best
        cand = [b for k, b in front.items() if k not in keep]
        if not cand:
            break
        e = max(cand, key=lambda b: (rank(b[0]), eid(b[0])))[0]
        i = eid(e)
        mine = [b for b in front.values() if eid(b[0]) == i]
        r = leafbits(e, min(b[1] for b in mine), max(b[1] for b in mine))
        if r is None:
            break
        for b in mine:
            front.pop(bkey(b))
        front.update(r)
        if len(front) > width:
            break
    return best


def expand(f, base):
    """re-express a table over a larger base"""
    if len(f.base) == len(base) and all(x is y or bkey(x) == bkey(y) for x, y in zip(f.base, base)):
        return f.tab
    pos = {bkey(b): k for k, b in enumerate(base)}
    idx = np.arange(1 << len(base), dtype=np.uint64)
    j = np.zeros_like(idx)
    for k, b in enumerate(f.base):
        j |= ((idx >> np.uint64(pos[bkey(b)])) & np.uint64(1)) << np.uint64(k)
    return f.tab[j]


def union(fs):
    u = {}
    for f in fs:
        if isinstance(f, FS):
            for b in f.base:
                u.setdefault(bkey(b), b)
    if len(u) > 16:
        gs = [type(f)(*normbase(f.base, f.tab)) if isinstance(f, FS) else f for f in fs]
        if any(isinstance(f, FS) and len(f.base) != len(g.base) for f, g in zip(fs, gs)):
            return union(gs)
        raise Unsupported("float value depends on more than 16 bits")
    base = tuple(u[k] for k in sorted(u))
    return base, [expand(f, base) if isinstance(f, FS) else f for f in fs]


TABLES = {}
LOWBASE = {}
LEAF = {}
FTABS = {}


def normbase(base, tab):
    """drop base bits that are functions of the other base bits"""
    while True:
        have = {bkey(b) for b in base}
        for i in sorted(range(len(base)), key=lambda i: (-rank(base[i][0]), bkey(base[i]))):
            b = base[i]
            e = b[0]
            if (eid(e) in CV or eid(e) in LIN or e.num_args()) and dep(b, have - {bkey(b)}, [5000], {}):
                rest = tuple(base[:i]) + tuple(base[i + 1:])
                v = NumEval(rest).one(b)
                j = np.arange(1 << len(rest), dtype=np.uint64)
                l = np.uint64(i)
                j = (j & umask(i)) | (j >> l) << (l + np.uint64(1)) | v << l
                base, tab = rest, tab[j]
                break
        else:
            return base, tab


def table_value(base, tab, w):
    """integer table -> value; equal tables share one function symbol"""
    tab = np.asarray(tab, dtype=np.uint64)
    base, tab = normbase(base, tab)
    if len(base) >= 12:
        bkeys = tuple(bkey(b) for b in base)
        if bkeys not in LOWBASE:
            LOWBASE[bkeys] = (find_base0(base, (), 400), base)
        low = LOWBASE[bkeys][0]
        if low is not None and len(low) < len(base):
            low = tuple(low[k] for k in sorted(low))
            ev, j = NumEval(low), np.zeros(1 << len(low), dtype=np.uint64)
            for i, b in enumerate(base):
                j |= ev.one(b) << np.uint64(i)
            base, tab = low, tab[j]
    if (tab == tab[0]).all():
        return int(tab[0])
    # drop base bits the table does not depend on
    while True:
        for i in range(len(base)):
            t = tab.reshape((-1, 2, 1 << i))
            if (t[:, 0, :] == t[:, 1, :]).all():
                tab = t[:, 0, :].reshape(-1).copy()
                base = base[:i] + base[i + 1:]
                break
        else:
            break
    # one column per bit: constants, base bits and repeated columns stay visible
    u = np.uint64
    idx = np.arange(len(tab), dtype=np.uint64)
    known = {}
    for i, b in enumerate(base):
        c = (idx >> u(i)) & u(1)
        known[c.astype(np.uint8).tobytes()] = b
        known[(c ^ u(1)).astype(np.uint8).tobytes()] = negbit(b)
    bits, new, cols = [0] * w, [], {}
    for p in range(w):
        c = (tab >> u(p)) & u(1)
        if (c == c[0]).all():
            bits[p] = int(c[0])
            continue
        k = c.astype(np.uint8).tobytes()
        if k in known:
            bits[p] = known[k]
        elif k in cols:
            bits[p] = cols[k]
        else:
            cols[k] = ("new", len(new))
            new.append(c)
            bits[p] = cols[k]
    if new:
        packed = np.zeros(len(tab), dtype=np.uint64)
        for i, c in enumerate(new):
            packed |= c << u(i)
        k = len(new)
        name = "tab_" + hashlib.sha1(packed.tobytes() + bytes([len(base), k])).hexdigest()[:16]
        if name not in TABLES:
            TABLES[name] = (z3.Function(name, z3.BitVecSort(len(base)), z3.BitVecSort(k)), packed.astype(np.uint32) if k <= 32 else packed, len(base), k)
        e = TABLES[name][0](bits2z(tuple(base)))
        bits = [(e, b[1]) if isinstance(b, tuple) and isinstance(b[0], str) else b for b in bits]
    sg = tab.astype(np.int64)
    if w < 64:
        sg = (sg ^ np.int64(1 << (w - 1))) - np.int64(1 << (w - 1))
    return mk(tuple(bits), (int(sg.min()), int(sg.max())))


class State:
    __slots__ = ("mem", "frames", "path", "inputs", "shared", "nobj", "steps")

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.shared = set(self.mem)
        self.shared = set(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.path = list(self.path)
        s.inputs = list(self.inputs)
        s.nobj = self.nobj
        s.steps = self.steps
        return s


class Frame:
    __slots__ = ("f", "blk", "i", "env", "prev", "ret", "ins")

    def copy(self):
        g = Frame()
        g.f, g.blk, g.i, g.prev, g.ret, g.ins = self.f, self.blk, self.i, self.prev, self.ret, self.ins
        g.env = dict(self.env)
        return g


class Failure(Exception):
    def __init__(self, what, inputs):
        self.what, self.inputs = what, inputs


class Exec:
    def __init__(self, mod, tables=None, solver_ms=60000, max_steps=40_000_000):
        self.m = mod
        self.gobj = {}
        self.fresh = 0
        self.vcs = 0
        self.by = {"normal form": 0, "simplify": 0, "solver": 0}
        self.solver_s = 0.0
        self.cache = {}
        self.paths = 0
        self.solver_ms = solver_ms
        self.max_steps = max_steps
        self.tables = tables or {}
        self.ended = 0
        self.undecided = []

    # -------------------------------------------------------- memory
    def newobj(self, st, n, fill=None):
        st.nobj += 1
        st.mem[st.nobj] = [fill] * n
        return st.nobj

    def globptr(self, st, name):
        while name in self.m.alias:
            name = self.m.alias[name]
        if name not in self.gobj:
            if name not in self.m.globals:
                self.gobj[name] = ("g", name)
                return Ptr(("g", name), 0)
            oid = ("g", name)
            self.gobj[name] = oid
            t, v = self.m.global_init(name)
            cells = [0] * size(t)
            self.fill(st, cells, 0, t, v)
            self.gcells = getattr(self, "gcells", {})
            self.gcells[oid] = cells
        return Ptr(self.gobj[name], 0)

    def fill(self, st, cells, off, t, v):
        if v[0] == "z" or v[0] == "u":
            for i in range(size(t)):
                cells[off + i] = 0 if v[0] == "z" else None
        elif v[0] == "s":
            for i, b in enumerate(v[1]):
                cells[off + i] = b
        elif v[0] == "agg":
            if t[0] == "s":
                offs, _ = layout(t)
                for o, (ft, fv) in zip(offs, v[1]):
                    self.fill(st, cells, off + o, ft, fv)
            else:
                es = size(t[2])
                for k, (ft, fv) in enumerate(v[1]):
                    self.fill(st, cells, off + k * es, ft, fv)
        else:
            x = self.val(st, None, t, v)
            self.put(cells, off, t, x)

    def cells(self, st, o):
        if isinstance(o, tuple):
            return self.gcells[o]
        return st.mem[o]

    def wcells(self, st, o):
        if isinstance(o, tuple):
            raise Unsupported("store to a constant")
        c = st.mem[o]
        if o in st.shared:
            c = list(c)
            st.mem[o] = c
            st.shared.discard(o)
        return c

    def put(self, cells, off, t, x):
        k = t[0]
        if k == "i":
            n = size(t)
            if x is None:
                for i in range(n):
                    cells[off + i] = None
            elif isinstance(x, Rel):
                for i in range(4):
                    cells[off + i] = PB(x, i)
            elif isinstance(x, int):
                for i in range(n):
                    cells[off + i] = (x >> (8 * i)) & 255
            elif isinstance(x, Ptr):
                for i in range(8):
                    cells[off + i] = PB(x, i)
            else:
                b = x.bits + (0,) * (8 * n - x.w)
                for i in range(n):
                    cells[off + i] = mk(b[8 * i:8 * i + 8])
        elif k == "p":
            for i in range(8):
                cells[off + i] = PB(x, i) if isinstance(x, Ptr) else (None if x is None else (x >> (8 * i)) & 255)
        elif k == "float":
            if isinstance(x, FS):
                for i in range(4):
                    cells[off + i] = PB(x, i)
            else:
                v = int(np.float32(x).view(np.uint32))
                for i in range(4):
                    cells[off + i] = (v >> (8 * i)) & 255
        elif k == "s":
            offs, _ = layout(t)
            for o, ft, fv in zip(offs, t[1], x):
                self.put(cells, off + o, ft, fv)
        elif k == "a":
            es = size(t[2])
            for j, fv in enumerate(x):
                self.put(cells, off + j * es, t[2], fv)
        else:
            raise Unsupported("store " + str(t))

    def get(self, cells, off, t):
        k = t[0]
        if k == "i" or k == "p":
            n = size(t)
            cs = cells[off:off + n]
            if isinstance(cs[0], PB):
                p = cs[0].p
                if n == (4 if isinstance(p, FS) else 8) and all(isinstance(c, PB) and c.p is p and c.i == i for i, c in enumerate(cs)):
                    return p if not isinstance(p, FS) else self.f2bits(p)
                raise Unsupported("partial pointer load")
            if any(c is None for c in cs):
                if all(c is None for c in cs):
                    return None
                if any(isinstance(c, PB) for c in cs):
                    raise Unsupported("mixed load")
                # partly undefined (padding): the undefined bytes stay unusable
                cs = [0 if c is None else c for c in cs]
            v = 0
            if all(isinstance(c, int) for c in cs):
                for i, c in enumerate(cs):
                    v |= c << (8 * i)
                return v & mask(t[1]) if k == "i" else v
            bits = ()
            for c in cs:
                if isinstance(c, PB):
                    raise Unsupported("mixed load")
                bits += bitsof(c, 8)
            return mk(bits[:t[1]] if k == "i" else bits)
        if k == "float":
            v = self.get(cells, off, ("i", 32)) if not isinstance(cells[off], PB) else None
            if v is None:
                return cells[off].p
            return self.bits2f(v)
        if k == "s":
            offs, _ = layout(t)
            return tuple(self.get(cells, off + o, ft) for o, ft in zip(offs, t[1]))
        if k == "a":
            es = size(t[2])
            return tuple(self.get(cells, off + j * es, t[2]) for j in range(t[1]))
        raise Unsupported("load " + str(t))

    def offsets(self, st, p, n, lim, what):
        """possible constant offsets of a symbolic pointer: (list of values, term)"""
        off = p.off
        pos = [i for i, b in enumerate(off.bits) if not isinstance(b, int)]
        if len(pos) > 14:
            raise Unsupported("symbolic address with %d free bits" % len(pos))
        return pos

    def load(self, st, p, t):
        if not isinstance(p, Ptr):
            raise Unsupported("load from a non-pointer")
        cells = self.cells(st, p.o)
        n = size(t)
        if isinstance(p.off, int):
            if p.off + n > len(cells) or p.off >= 1 << 62:
                self.fail(st, z3.BoolVal(True), "load out of bounds")
                raise Infeasible()
            return self.get(cells, p.off, t)
        lim = len(cells) - n
        pos = self.offsets(st, p, n, lim, "load")
        base = sum(b << i for i, b in enumerate(p.off.bits) if isinstance(b, int))
        lo, hi = urange(p.off, 64)
        if hi > lim:
            self.vc(st, s2b(icmp("ult", 64, lim, p.off)), "load out of bounds")
        SPLIT.append(p.off)
        bits = p.off.bits
        if t[0] == "i":
            q = cvbase([p.off])
            fb = None
            if q is not None:
                cs = cvcases(q, p.off)
                if all(isinstance(c, int) for c in cs):
                    fb, offs = q, cs
            elif len(pos) <= CVMAX:
                fb = {bk(bits[i]): bits[i] for i in pos}
                fb = [fb[k] for k in sorted(fb)]
                offs = []
                ix = {bk(b): i for i, b in enumerate(fb)}
                for m in range(1 << len(fb)):
                    offs.append(base | sum(((m >> ix[bk(bits[i])]) & 1) << i for i in pos))
            if fb is not None:
                vals = [self.get(cells, o, t) if lo <= o <= min(hi, lim) else None for o in offs]
                some = [v for v in vals if v is not None]
                if not some:
                    raise Unsupported("symbolic load: no value")
                # out-of-range cases are excluded by the check above
                return mkcv(fb, [some[0] if v is None else v for v in vals], t[1])

        def tree(k, off):
            if k < 0:
                if off > lim or off < lo or off > hi:
                    return ()
                v = self.get(cells, off, t)
                if v is None:
                    return ()
                return (v,)
            a = tree(k - 1, off)
            b = tree(k - 1, off | 1 << pos[k])
            if not a:
                return b
            if not b:
                return a
            a, b = a[0], b[0]
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return (a,)
            if t[0] != "i":
                raise Unsupported("symbolic load of " + str(t))
            return (select(S((bits[pos[k]],)), b, a, t[1]),)
        r = tree(len(pos) - 1, base)
        if not r:
            raise Unsupported("symbolic load: no value")
        return r[0]

    def store(self, st, p, t, v):
        if not isinstance(p, Ptr):
            raise Unsupported("store to a non-pointer")
        cells = self.wcells(st, p.o)
        n = size(t)
        if isinstance(p.off, int):
            if p.off + n > len(cells) or p.off >= 1 << 62:
                self.fail(st, z3.BoolVal(True), "store out of bounds")
                raise Infeasible()
            self.put(cells, p.off, t, v)
            return
        if t[0] != "i":
            raise Unsupported("symbolic store of " + str(t))
        lim = len(cells) - n
        pos = self.offsets(st, p, n, lim, "store")
        base = sum(b << i for i, b in enumerate(p.off.bits) if isinstance(b, int))
        lo, hi = urange(p.off, 64)
        if hi > lim:
            self.vc(st, s2b(icmp("ult", 64, lim, p.off)), "store out of bounds")
        for k in range(1 << len(pos)):
            off = base | sum(((k >> j) & 1) << pos[j] for j in range(len(pos)))
            if off > lim or off < lo or off > hi:
                continue
            old = self.get(cells, off, t)
            c = eqv(p.off, off, 64)
            self.put(cells, off, t, v if old is None else select(c, v, old, t[1]))

    # -------------------------------------------------------- floats
    def bits2f(self, v):
        if isinstance(v, int):
            return float(np.uint32(v).view(np.float32))
        b = find_base(v.bits, getattr(self, "fbase", ()))
        if b is None:
            raise Unsupported("float of more than 16 bits")
        base = tuple(b[k] for k in sorted(b))
        self.fbase = tuple({bkey(x): x for x in tuple(getattr(self, "fbase", ())) + base}.values())
        tab = NumEval(base).bits(v.bits).astype(np.uint32).view(np.float32)
        return FS(base, tab)

    def f2bits(self, f):
        if not isinstance(f, FS):
            return int(np.float32(f).view(np.uint32))
        return ("ftab", f)

    def fbin(self, op, a, b):
        base, (x, y) = union([a, b])
        with np.errstate(all="ignore"):
            x, y = np.float32(x) if not isinstance(x, np.ndarray) else x, np.float32(y) if not isinstance(y, np.ndarray) else y
            r = {"fadd": lambda: x + y, "fsub": lambda: x - y, "fmul": lambda: x * y, "fdiv": lambda: x / y}[op]()
        return FS(base, r.astype(np.float32)) if base else float(r)

    def tab_of(self, v, w, base):
        """integer value as a table over base"""
        return NumEval(base).bits(bitsof(v, w))

    # -------------------------------------------------------- verification conditions
    def vc(self, st, bad, what):
        """`bad` must be impossible on this path"""
        self.vcs += 1
        if z3.is_false(bad):
            self.by["simplify"] += 1
            return
        key = (bad.get_id(), tuple(p.get_id() for p in st.path))
        if key in self.cache:
            self.by["simplify"] += 1
            return
        bad0, bad = bad, expandz(bad)
        path = [expandz(p) for p in st.path]
        c = z3.simplify(bad, som=True, hoist_mul=False)
        if z3.is_false(c):
            self.by["simplify"] += 1
            self.cache[key] = (bad0, list(st.path))
            return
        if z3.is_true(c) and not st.path:
            raise Failure(what, self.model(st, None))
        s = z3.SolverFor("QF_BV") if not self.has_tab(c) else z3.SolverFor("QF_UFBV")
        s.set("timeout", self.solver_ms)
        for p in path:
            s.add(p)
        s.add(bad)
        t = time.time()
        facts = set()
        while True:
            r = s.check()
            if r != z3.sat:
                break
            m = s.model()
            new = self.refine(m, [bad] + path, facts)
            if not new:
                break
            s.add(*new)
        self.solver_s += time.time() - t
        if r == z3.unsat:
            self.by["solver"] += 1
            self.cache[key] = (bad0, list(st.path))
        elif r == z3.sat:
            raise Failure(what, self.model(st, m))
        else:
            self.undecided.append(what)

    def has_tab(self, c):
        seen, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                return True
            todo += x.children()
        return False

    def refine(self, m, forms, facts):
        """make the table symbols agree with the tables on the points the model uses"""
        new, seen, todo = [], set(), list(forms)
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            todo += x.children()
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
                f, tab, nb, k = TABLES[x.decl().name()]
                a = m.eval(x.arg(0), model_completion=True).as_long()
                want = int(tab[a])
                if m.eval(x, model_completion=True).as_long() != want and (x.decl().name(), a) not in facts:
                    facts.add((x.decl().name(), a))
                    # a whole interval of equal values around the point
                    new.append(f(z3.BitVecVal(a, nb)) == z3.BitVecVal(want, k))
        if len(facts) > 3000:
            raise Unsupported("table refinement")
        return new

    def fail(self, st, c, what):
        self.vc(st, c, what)

    def feasible(self, st, c):
        c = z3.simplify(expandz(c))
        if z3.is_true(c) and not st.path:
            return True
        if z3.is_false(c):
            return False
        s = z3.Solver()
        s.set("timeout", 10000)
        for p in st.path:
            s.add(expandz(p))
        s.add(c)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        return r != z3.unsat

    def model(self, st, m):
        if m is None:
            s = z3.Solver()
            s.add(*[expandz(p) for p in st.path])
            if s.check() != z3.sat:
                return None
            m = s.model()
        out = bytearray()
        for k, v in st.inputs:
            if k == "choose":
                out += bytes([v & 255, v >> 8])
            elif k == "below":
                out.append(v)
            else:
                out.append(m.eval(v, model_completion=True).as_long())
        return bytes(out).hex()

    # -------------------------------------------------------- values
    def val(self, st, fr, t, v):
        k = v[0]
        if k == "l":
            return fr.env[v[1]]
        if k == "c":
            return v[1]
        if k == "g":
            return self.globptr(st, v[1])
        if k == "f":
            return float(np.float32(v[1])) if t == ("float",) else v[1]
        if k == "u":
            if t[0] in ("s", "a"):
                return tuple(self.val(st, fr, ft, v) for ft in (t[1] if t[0] == "s" else [t[2]] * t[1]))
            return None
        if k == "z":
            if t[0] == "s":
                return tuple(self.val(st, fr, ft, ("z", ft)) for ft in t[1])
            if t[0] == "a":
                return tuple(self.val(st, fr, t[2], ("z", t[2])) for _ in range(t[1]))
            return 0
        if k == "agg":
            return tuple(self.val(st, fr, ft, fv) for ft, fv in v[1])
        if k == "rel":
            # entry of a relative lookup table: the pointer it leads to
            a, b = self.val(st, fr, ("p",), v[1]), self.val(st, fr, ("p",), v[2])
            if not isinstance(a, Ptr) or not isinstance(b, Ptr):
                raise Unsupported("relative constant")
            return Rel(a, b.o)
        if k == "gep":
            base = self.val(st, fr, ("p",), v[2])
            return self.gep(st, v[1], base, [(it, self.val(st, fr, it, iv)) for it, iv in v[3]])
        raise Unsupported("operand " + str(v))

    def gep(self, st, t, base, idx):
        off = 0 if not isinstance(base, Ptr) else base.off
        cur = t
        for n, (it, iv) in enumerate(idx):
            if n == 0:
                es = size(cur)
            elif cur[0] == "s":
                off = binop("add", 64, off, layout(cur)[0][iv])
                cur = cur[1][iv]
                continue
            else:
                cur = cur[2]
                es = size(cur)
            if isinstance(iv, S) and it[1] < 64:
                iv = mk(iv.bits + (iv.bits[-1],) * (64 - it[1]), iv.rng)
            elif isinstance(iv, int) and it[1] < 64:
                iv = signed(iv, it[1]) & mask(64)
            if iv is None:
                raise Unsupported("undefined index")
            off = binop("add", 64, off, binop("mul", 64, iv, es & mask(64)))
        if isinstance(base, Ptr):
            return Ptr(base.o, off)
        return binop("add", 64, base, off)

    # -------------------------------------------------------- execution
    def start(self, name):
        f = self.m.fn(name)
        if f is None:
            raise Unsupported("no such entry point " + name)
        st = State()
        st.mem, st.shared, st.path, st.inputs, st.nobj, st.steps, st.frames = {}, set(), [], [], 0, 0, []
        self.push(st, f, [], None)
        return st

    def push(self, st, f, args, ret):
        f.parse()
        fr = Frame()
        fr.f, fr.prev, fr.ret, fr.env = f, None, ret, {}
        for (t, n), a in zip(f.params, args):
            fr.env[n] = a
        fr.blk = f.entry
        fr.ins = f.block(f.entry)
        fr.i = 0
        st.frames.append(fr)

    def goto(self, st, fr, b):
        fr.prev, fr.blk, fr.i = fr.blk, b, 0
        fr.ins = fr.f.block(b)
        # phis are simultaneous
        n = 0
        vals = []
        ins = fr.ins
        while n < len(ins) and ins[n][0] == "phi":
            _, dst, t, inc = ins[n]
            vals.append((dst, self.val(st, fr, t, inc[fr.prev])))
            n += 1
        for d, v in vals:
            fr.env[d] = v
        fr.i = n

    # -------------------------------------------------------- joining of branches
    def succs(self, f, b):
        ins = f.block(b)
        x = ins[-1]
        if x[0] == "jmp":
            r = [x[1]]
        elif x[0] == "br":
            r = [x[2], x[3]]
        elif x[0] == "switch":
            r = [t for _, t in x[4]] + [x[3]]
        else:
            return []
        return [y for y in dict.fromkeys(r) if not self.panics(f, y)]

    def join(self, f, b):
        """the block where the branches of block `b` meet again, when only pure code is in between"""
        c = self.__dict__.setdefault("jcache", {})
        key = (f.name, b)
        if key in c:
            return c[key]
        c[key] = None
        # blocks reachable from both successors, in order; limited search
        def reach(x):
            seen, todo = {}, [x]
            while todo and len(seen) < 400:
                y = todo.pop(0)
                if y in seen or y == b:
                    continue
                seen[y] = self.succs(f, y)
                todo += seen[y]
            return seen
        ss = self.succs(f, b)
        if len(ss) < 2:
            return None
        rs = [reach(x) for x in ss]
        common = [y for y in rs[0] if all(y in r for r in rs[1:])]
        for j in common:
            # every path from b meets j, without a cycle, through pure blocks
            ok, state, n = True, {}, 0
            todo = [(x, iter(self.succs(f, x))) for x in [b]]
            state[b] = 1
            while todo and ok:
                x, it = todo[-1]
                y = next(it, None)
                if y is None:
                    state[x] = 2
                    todo.pop()
                    continue
                if y == j:
                    continue
                if state.get(y) == 1:
                    ok = False
                elif y not in state:
                    state[y] = 1
                    sy = self.succs(f, y)
                    if not sy or not self.pure(f, y) or len(state) > 40:
                        ok = False
                    todo.append((y, iter(sy)))
            if ok:
                c[key] = j
                return j
        return None

    def pure(self, f, b):
        for x in f.block(b):
            if x[0] in ("bin", "icmp", "cast", "select", "phi", "freeze", "extract", "insert", "jmp", "br", "gep"):
                if x[0] == "bin" and x[2] in ("udiv", "sdiv", "urem", "srem") and x[5][0] != "c":
                    return False
                continue
            if x[0] == "call" and x[3].startswith("@llvm.") and not x[3].startswith(("@llvm.mem", "@llvm.load")):
                continue
            return False
        return True

    def merge(self, st, fr, c, tb, fb):
        """run both sides of a branch up to the join and select the values that meet there"""
        j = self.join(fr.f, fr.blk)
        if j is None:
            return False
        phis = []
        for x in fr.f.block(j):
            if x[0] != "phi":
                break
            phis.append(x)
        saved = (fr.env, fr.prev, fr.blk, fr.i, fr.ins, list(st.path))
        self.mleaves = 0

        def side(b):
            """values of the join's phis when control goes to b"""
            if b == j:
                self.mleaves += 1
                if self.mleaves > 64:
                    raise Unsupported("join")
                return [self.val(st, fr, t, inc[fr.blk]) for _, _, t, inc in phis]
            self.goto(st, fr, b)
            while True:
                x = fr.ins[fr.i]
                if x[0] == "jmp":
                    return side(x[1])
                if x[0] == "br":
                    cv = self.val(st, fr, ("i", 1), x[1])
                    if isinstance(cv, BS):
                        cv = table_value(cv.base, cv.tab, 1)
                    if cv is None:
                        raise Unsupported("join")
                    t, e = x[2], x[3]
                    if isinstance(cv, int):
                        if self.panics(fr.f, e if cv else t):
                            self.vcs += 1
                            self.by["normal form"] += 1
                        return side(t if cv else e)
                    pt, pf = self.panics(fr.f, t), self.panics(fr.f, e)
                    if pt or pf:
                        cb = s2b(cv)
                        self.vc(st, cb if pt else z3.Not(cb), self.site(st, pt or pf))
                        return side(e if pt else t)
                    return both(cv, t, e)
                fr.i += 1
                self.pathstep(st, fr, x)

        def both(cv, t, e):
            env, blk = fr.env, fr.blk
            n = len(st.path)
            fr.env = dict(env)
            cb = s2b(cv)
            st.path.append(cb)
            a = side(t)
            del st.path[n:]
            fr.env, fr.blk = dict(env), blk
            st.path.append(z3.Not(cb))
            b = side(e)
            del st.path[n:]
            fr.env, fr.blk = env, blk
            out = []
            for p, x, y in zip(phis, a, b):
                t = p[2]
                if x is None or y is None:
                    out.append(x if y is None else y)
                elif isinstance(x, FS) or isinstance(y, FS) or t[0] == "float" or isinstance(x, tuple) and x[:1] == ("ftab",) or isinstance(y, tuple) and y[:1] == ("ftab",):
                    out.append(self.fselect(cv, x, y, t))
                elif t[0] == "i" and not isinstance(x, Ptr) and not isinstance(y, Ptr):
                    out.append(select(cv, x, y, t[1]))
                elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.o == y.o:
                    out.append(Ptr(x.o, select(cv, x.off, y.off, 64)))
                else:
                    raise Unsupported("join")
            return out

        try:
            vals = both(c, tb, fb)
        except (Unsupported, Infeasible):
            fr.env, fr.prev, fr.blk, fr.i, fr.ins, st.path = saved
            return False
        fr.env = saved[0]
        st.path = saved[5]
        fr.blk = j
        fr.ins = fr.f.block(j)
        for p, v in zip(phis, vals):
            fr.env[p[1]] = v
        fr.i = len(phis)
        return True

    def pathstep(self, st, fr, x):
        """one pure instruction"""
        ins, i = fr.ins, fr.i
        fr.ins, fr.i = [x, ("stop",)], 0
        try:
            self.path(st, [], None)
        finally:
            fr.ins, fr.i = ins, i

    def panics(self, f, b):
        """does this block just panic? returns the text of the panic site"""
        key = (f.name, b)
        c = self.__dict__.setdefault("pcache", {})
        if key not in c:
            ins = f.block(b)
            r = None
            if ins and ins[-1][0] == "unreachable":
                for x in ins:
                    if x[0] == "call" and x[3] in self.m.noreturn:
                        r = x
                if r is None and all(x[0] in ("unreachable",) for x in ins):
                    r = ("ub",)
                # side effects before the panic do not matter, but calls might
                if r and any(x[0] == "call" and x is not r and not x[3].startswith("@llvm.") for x in ins):
                    r = None
            c[key] = r
        return c[key]

    def site(self, st, call):
        if call[0] == "ub":
            return "unreachable code"
        name = re.sub(r".*?(panic\w*|slice_\w+|\w+fail\w*|unwrap\w*|expect\w*)$", r"\1", call[3])
        loc = ""
        for t, v in reversed(call[4]):
            if v[0] == "g":
                try:
                    p = self.globptr(st, v[1])
                    cells = self.cells(st, p.o)
                    q = self.get(cells, 0, ("p",))
                    ln = self.get(cells, 8, ("i", 64))
                    if isinstance(q, Ptr) and len(cells) == 24:
                        fn = bytes(self.cells(st, q.o)[:ln]).decode()
                        loc = f"{fn}:{self.get(cells, 16, ('i', 32))}"
                        break
                except Exception:
                    pass
        return f"{name} at {loc}"

    def run(self, name, first=None, deadline=None):
        """explore every path.  first: restrict the first choose() to these values"""
        todo = [self.start(name)]
        self.first = first
        while todo:
            st = todo.pop()
            try:
                self.path(st, todo, deadline)
            except Infeasible:
                pass

    def path(self, st, todo, deadline):
        while True:
            fr = st.frames[-1]
            x = fr.ins[fr.i]
            fr.i += 1
            st.steps += 1
            if st.steps & 0xfff == 0:
                if st.steps > self.max_steps:
                    raise Unsupported("too many steps")
                if deadline and time.time() > deadline:
                    raise Unsupported("time limit")
            op = x[0]
            env = fr.env
            if op == "stop":
                return
            if op == "bin":
                _, dst, o, t, a, b = x
                a, b = self.val(st, fr, t, a), self.val(st, fr, t, b)
                if a is None or b is None:
                    env[dst] = None
                elif t[0] == "float":
                    env[dst] = self.fbin(o, a, b)
                elif t[0] != "i":
                    raise Unsupported("bin " + str(t))
                elif isinstance(a, Ptr) or isinstance(b, Ptr):
                    env[dst] = self.ptrarith(o, a, b)
                elif isinstance(a, tuple) or isinstance(b, tuple) or isinstance(a, FS) or isinstance(b, FS):
                    env[dst] = self.fbits_op(o, a, b, t[1])
                else:
                    if o in ("udiv", "sdiv", "urem", "srem") and isinstance(b, S):
                        z = eqv(b, 0, t[1])
                        if not isinstance(z, int):
                            self.vc(st, s2b(z), "division by zero")
                    env[dst] = binop(o, t[1], a, b)
            elif op == "icmp":
                _, dst, pr, t, a, b = x
                a, b = self.val(st, fr, t, a), self.val(st, fr, t, b)
                if isinstance(a, Ptr) or isinstance(b, Ptr):
                    if isinstance(a, Ptr) and isinstance(b, Ptr):
                        if a.o != b.o:
                            if pr == "eq":
                                env[dst] = 0
                            elif pr == "ne":
                                env[dst] = 1
                            else:
                                raise Unsupported("order of unrelated pointers")
                        else:
                            env[dst] = icmp(pr, 64, a.off, b.off)
                    else:
                        q = b if isinstance(a, Ptr) else a
                        if pr in ("eq", "ne") and isinstance(q, int) and q < 4096:
                            env[dst] = int(pr == "ne")
                        else:
                            raise Unsupported("pointer comparison")
                elif a is None or b is None:
                    raise Unsupported("comparison of an undefined value")
                elif isinstance(a, tuple) or isinstance(b, tuple):
                    env[dst] = self.fbits_cmp(pr, a, b)
                else:
                    env[dst] = icmp(pr, t[1] if t[0] == "i" else 64, a, b)
            elif op == "load":
                _, dst, t, p = x
                env[dst] = self.load(st, self.val(st, fr, ("p",), p), t)
            elif op == "store":
                _, t, v, p = x
                self.store(st, self.val(st, fr, ("p",), p), t, self.val(st, fr, t, v))
            elif op == "gep":
                _, dst, t, b, idx = x
                env[dst] = self.gep(st, t, self.val(st, fr, ("p",), b), [(it, self.val(st, fr, it, iv)) for it, iv in idx])
            elif op == "cast":
                _, dst, o, t, a, t2 = x
                env[dst] = self.cast(o, t, self.val(st, fr, t, a), t2)
            elif op == "select":
                _, dst, cv, t, a, b = x
                c = self.val(st, fr, ("i", 1), cv)
                if c is None:
                    raise Unsupported("select on an undefined value")
                if isinstance(c, int):
                    env[dst] = self.val(st, fr, t, a if c else b)
                    continue
                a, b = self.val(st, fr, t, a), self.val(st, fr, t, b)
                if isinstance(c, BS) or isinstance(a, FS) or isinstance(b, FS) or t[0] == "float" or isinstance(a, tuple) and a and a[0] == "ftab" or isinstance(b, tuple) and b and b[0] == "ftab":
                    env[dst] = self.fselect(c, a, b, t)
                elif t[0] == "i" and a is not None and b is not None and not isinstance(a, Ptr) and not isinstance(b, Ptr):
                    env[dst] = select(c, a, b, t[1])
                elif a is None or b is None:
                    env[dst] = a if b is None else b
                elif isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o:
                    env[dst] = Ptr(a.o, select(c, a.off, b.off, 64))
                else:
                    # pointers to different objects, aggregates: fork
                    cb = s2b(c)
                    other = st.copy()
                    other.path.append(z3.Not(cb))
                    other.frames[-1].env[dst] = b
                    if self.feasible(other, z3.BoolVal(True)):
                        todo.append(other)
                    st.path.append(cb)
                    if not self.feasible(st, z3.BoolVal(True)):
                        raise Infeasible()
                    env[dst] = a
            elif op == "jmp":
                self.goto(st, fr, x[1])
            elif op == "br":
                _, cv, tb, fb = x
                c = self.val(st, fr, ("i", 1), cv)
                if isinstance(c, BS):
                    c = table_value(c.base, c.tab, 1)
                if c is None:
                    raise Unsupported("branch on an undefined value")
                if isinstance(c, int):
                    if self.panics(fr.f, fb if c else tb):
                        self.vcs += 1
                        self.by["normal form"] += 1
                    self.goto(st, fr, tb if c else fb)
                    continue
                pt, pf = self.panics(fr.f, tb), self.panics(fr.f, fb)
                if pt or pf:
                    cb = s2b(c)
                    self.vc(st, cb if pt else z3.Not(cb), self.site(st, pt or pf))
                    self.goto(st, fr, fb if pt else tb)
                    continue
                cb = z3.simplify(s2b(c))
                ft, ff = self.feasible(st, cb), self.feasible(st, z3.Not(cb))
                if ft and ff:
                    if self.merge(st, fr, c, tb, fb):
                        continue
                    other = st.copy()
                    other.path.append(z3.Not(cb))
                    self.goto(other, other.frames[-1], fb)
                    todo.append(other)
                    st.path.append(cb)
                    self.goto(st, fr, tb)
                elif ft or ff:
                    self.goto(st, fr, tb if ft else fb)
                else:
                    raise Infeasible()
            elif op == "switch":
                _, t, v, d, cs = x
                v = self.val(st, fr, t, v)
                if v is None:
                    raise Unsupported("switch on an undefined value")
                if isinstance(v, int):
                    for k, b in cs:
                        if k == v:
                            self.goto(st, fr, b)
                            break
                    else:
                        self.goto(st, fr, d)
                    continue
                outs, neg = [], []
                for k, b in cs:
                    c = eqv(v, k, t[1])
                    if isinstance(c, int) and not c:
                        continue
                    outs.append((s2b(c), b))
                    neg.append(z3.Not(s2b(c)))
                pd = self.panics(fr.f, d)
                if pd:
                    self.vc(st, z3.And(*neg) if neg else z3.BoolVal(True), self.site(st, pd))
                else:
                    outs.append((z3.And(*neg) if neg else z3.BoolVal(True), d))
                outs = [(c, b) for c, b in outs if self.feasible(st, c)]
                if not outs:
                    raise Infeasible()
                for c, b in outs[1:]:
                    other = st.copy()
                    other.path.append(c)
                    self.goto(other, other.frames[-1], b)
                    todo.append(other)
                st.path.append(outs[0][0])
                self.goto(st, fr, outs[0][1])
            elif op == "phi":
                raise Unsupported("phi in the middle of a block")
            elif op == "call":
                if self.call(st, fr, x, todo):
                    return
            elif op == "ret":
                _, v, t = x
                r = None if v is None else self.val(st, fr, t, v)
                st.frames.pop()
                if not st.frames:
                    self.paths += 1
                    self.ended += 1
                    self.result = r
                    return
                if fr.ret:
                    st.frames[-1].env[fr.ret] = r
            elif op == "alloca":
                env[x[1]] = Ptr(self.newobj(st, x[2]), 0)
            elif op == "extract":
                _, dst, t, v, ix = x
                r = self.val(st, fr, t, v)
                for i in ix:
                    r = r[i] if r is not None else None
                env[dst] = r
            elif op == "insert":
                _, dst, t, v, et, ev, ix = x
                r = self.val(st, fr, t, v)
                ev = self.val(st, fr, et, ev)

                def ins(r, ix, t):
                    if not ix:
                        return ev
                    n = len(t[1]) if t[0] == "s" else t[1]
                    r = list(r) if r is not None else [None] * n
                    r[ix[0]] = ins(r[ix[0]], ix[1:], t[1][ix[0]] if t[0] == "s" else t[2])
                    return tuple(r)
                env[dst] = ins(r, ix, t)
            elif op == "freeze":
                _, dst, t, v = x
                r = self.val(st, fr, t, v)
                if r is None:
                    raise Unsupported("freeze of an undefined value")
                env[dst] = r
            elif op == "fcmp":
                _, dst, pr, t, a, b = x
                a, b = self.val(st, fr, t, a), self.val(st, fr, t, b)
                base, (p, q) = union([a, b])
                p, q = np.asarray(p, np.float32), np.asarray(q, np.float32)
                nan = np.isnan(p) | np.isnan(q)
                r = {"eq": p == q, "ne": p != q, "gt": p > q, "ge": p >= q, "lt": p < q, "le": p <= q, "rd": ~nan, "no": nan}[pr[1:]]
                if pr == "ord":
                    r = ~nan
                elif pr == "uno":
                    r = nan
                elif pr[0] == "o":
                    r = r & ~nan
                else:
                    r = r | nan
                env[dst] = BS(base, r.astype(np.uint64)) if base else int(r)
            elif op == "fneg":
                _, dst, t, a = x
                a = self.val(st, fr, t, a)
                env[dst] = FS(a.base, -a.tab) if isinstance(a, FS) else -a
            elif op == "unreachable":
                self.vc(st, z3.BoolVal(True), "unreachable code")
                raise Infeasible()
            else:
                raise Unsupported("instruction " + op)

    def ptrarith(self, o, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and o == "sub" and a.o == b.o:
            return binop("sub", 64, a.off, b.off)
        if isinstance(a, Ptr) and o in ("add", "sub") and not isinstance(b, Ptr):
            return Ptr(a.o, binop(o, 64, a.off, b))
        if isinstance(a, Ptr) and o == "and" and isinstance(b, int) and b < 16:
            return binop("and", 64, a.off, b)
        raise Unsupported("pointer arithmetic " + o)

    def tabulate(self, name):
        """a function of one u16 executed on all its arguments"""
        if not isinstance(name, str):
            name = name[1]
        if name not in FTABS:
            f = self.m.fn(name)
            sub = Exec(self.m)
            out = np.zeros(1 << 16, dtype=np.uint64)
            for x in range(1 << 16):
                st = State()
                st.mem, st.shared, st.frames, st.path, st.inputs, st.nobj, st.steps = {}, set(), [], [], [], 0, 0
                sub.push(st, f, [x], None)
                todo = []
                sub.path(st, todo, None)
                if todo or not isinstance(sub.result, int):
                    raise Unsupported("tabulated function is not closed")
                out[x] = sub.result
            FTABS[name] = out
        return FTABS[name]

    # bit operations on the representation of a symbolic float
    def fb(self, v):
        return v[1] if isinstance(v, tuple) else v

    def inttab(self, v, w):
        """(base, table) of an integer-like operand"""
        if isinstance(v, tuple):
            f = v[1]
            return FS(f.base, f.tab.view(np.uint32).astype(np.uint64)) if f.tab.dtype == np.float32 else f
        if isinstance(v, FS):
            return v
        if isinstance(v, int):
            return v
        b = find_base(v.bits, getattr(self, "fbase", ()))
        if b is None:
            raise Unsupported("float bits mixed with a wide value")
        base = tuple(b[k] for k in sorted(b))
        return FS(base, NumEval(base).bits(v.bits))

    def fbits_op(self, o, a, b, w):
        base, (p, q) = union([self.inttab(a, w), self.inttab(b, w)])
        p, q = np.asarray(p, np.uint64), np.asarray(q, np.uint64)
        m = umask(w)
        if o == "or":
            r = p | q
        elif o == "and":
            r = p & q
        elif o == "xor":
            r = p ^ q
        elif o == "add":
            r = (p + q) & m
        elif o == "sub":
            r = (p - q) & m
        elif o == "shl":
            r = (p << q) & m
        elif o == "lshr":
            r = p >> q
        else:
            raise Unsupported("float bits " + o)
        if w == 1:
            return BS(base, r)
        return ("ftab", FS(base, r))

    def fbits_cmp(self, pr, a, b):
        base, (p, q) = union([self.inttab(a, 32), self.inttab(b, 32)])
        p, q = np.asarray(p, np.uint64), np.asarray(q, np.uint64)
        if pr[0] == "s":
            p, q = (x.astype(np.uint32).view(np.int32) for x in (p, q))
        r = {"eq": lambda: p == q, "ne": lambda: p != q, "lt": lambda: p < q, "le": lambda: p <= q, "gt": lambda: p > q, "ge": lambda: p >= q}[pr if pr in ("eq", "ne") else pr[1:]]()
        return BS(base, r.astype(np.uint64))

    def fselect(self, c, a, b, t):
        w = t[1] if t[0] == "i" else 32
        isf = t == ("float",)
        ct = c if isinstance(c, FS) else self.inttab(c, 1)
        if isf:
            base, (cc, p, q) = union([ct, a, b])
            return FS(base, np.where(cc != 0, np.asarray(p, np.float32), np.asarray(q, np.float32)))
        base, (cc, p, q) = union([ct, self.inttab(a, w), self.inttab(b, w)])
        r = np.where(cc != 0, np.asarray(p, np.uint64), np.asarray(q, np.uint64))
        if w == 1:
            return BS(base, r)
        if w <= 16:
            return table_value(base, r, w)
        return ("ftab", FS(base, r))

    def cast(self, o, t, a, t2):
        if a is None:
            return None
        if o in ("zext", "sext", "trunc") and isinstance(a, (tuple, BS)):
            f = self.inttab(a, t[1])
            if o == "sext":
                raise Unsupported("sext of float bits")
            return table_value(f.base, f.tab & umask(min(t[1], t2[1])), t2[1])
        if o == "zext":
            if isinstance(a, int):
                return a
            lo, hi = urange(a, t[1])
            return mk(a.bits + (0,) * (t2[1] - t[1]), (lo, hi))
        if o == "sext":
            if isinstance(a, int):
                return signed(a, t[1]) & mask(t2[1])
            return mk(a.bits + (a.bits[-1],) * (t2[1] - t[1]), a.rng)
        if o == "trunc":
            if isinstance(a, int):
                return a & mask(t2[1])
            if isinstance(a, Ptr):
                raise Unsupported("truncated pointer")
            lo, hi = srange(a, t[1])
            w = t2[1]
            return mk(lowlin(a.bits[:w], w), a.rng if a.rng and -(1 << (w - 1)) <= lo and hi < 1 << (w - 1) else None)
        if o == "bitcast":
            if t == t2:
                return a
            if t[0] == "i" and t2 == ("float",):
                if isinstance(a, tuple):
                    f = a[1]
                    return f if f.tab.dtype == np.float32 else FS(f.base, f.tab.astype(np.uint32).view(np.float32))
                return self.bits2f(a)
            if t == ("float",) and t2[0] == "i":
                return self.f2bits(a)
            raise Unsupported(f"bitcast {t} {t2}")
        if o in ("ptrtoint", "inttoptr", "ptrtoaddr"):
            return a
        if o in ("sitofp", "uitofp"):
            if t2 != ("float",):
                raise Unsupported(o + str(t2))
            if isinstance(a, int):
                return float(np.float32(signed(a, t[1]) if o == "sitofp" else a))
            f = self.inttab(a, t[1])
            v = f.tab.astype(np.int64)
            if o == "sitofp":
                v = (v ^ (1 << (t[1] - 1))) - (1 << (t[1] - 1)) if t[1] < 64 else v
            return FS(f.base, v.astype(np.float32))
        raise Unsupported(o)

    def call(self, st, fr, x, todo):
        _, dst, rt, callee, args = x
        env = fr.env
        if callee.startswith("@llvm."):
            env_set = self.intrinsic(st, fr, callee, args, rt)
            if dst:
                env[dst] = env_set
            return False
        if callee == "@vp_nondet_u8":
            n = len(st.inputs)
            v = z3.BitVec
            bs = tuple((z3.BitVec(f"in{n}_{i}", 1), 0) for i in range(8))
            st.inputs.append(("u8", bits2z(bs)))
            env[dst] = S(bs)
            return False
        if callee in ("@vp_choose", "@vp_below"):
            n = self.val(st, fr, ("i", 64), args[0][1])
            if not isinstance(n, int):
                raise Unsupported("choose of a symbolic bound")
            vals = list(range(n))
            if self.first is not None and not any(k in ("choose", "below") for k, _ in st.inputs):
                vals = [v for v in self.first if v < n]
                if not vals:
                    raise Infeasible()
            kind = callee[4:]
            for v in vals[1:]:
                other = st.copy()
                other.inputs.append((kind, v))
                other.frames[-1].env[dst] = v
                todo.append(other)
            st.inputs.append((kind, vals[0]))
            env[dst] = vals[0]
            return False
        if callee == "@vp_tab":
            v = self.val(st, fr, ("i", 16), args[0][1])
            tab = self.tabulate(args[1][1])
            if isinstance(v, int):
                env[dst] = int(tab[v])
            else:
                f = self.inttab(v, 16)
                self.fbase = tuple({bkey(y): y for y in tuple(getattr(self, "fbase", ())) + tuple(f.base)}.values())
                env[dst] = table_value(f.base, tab[f.tab.astype(np.int64)], 32)
            return False
        if callee == "@vp_assume":
            c = self.val(st, fr, ("i", 1), args[0][1])
            if isinstance(c, BS):
                c = table_value(c.base, c.tab, 1)
            if isinstance(c, int):
                if not c:
                    raise Infeasible()
            else:
                st.path.append(s2b(c))
                if not self.feasible(st, z3.BoolVal(True)):
                    raise Infeasible()
            return False
        if callee in self.m.noreturn:
            self.vc(st, z3.BoolVal(True), self.site(st, x))
            raise Infeasible()
        f = self.m.fn(callee)
        if f is None:
            nm = callee
            if "no_alloc_shim" in nm:
                return False
            if nm.endswith(("___rust_alloc", "___rust_alloc_zeroed")):
                n = self.val(st, fr, ("i", 64), args[0][1])
                if not isinstance(n, int):
                    raise Unsupported("symbolic allocation size")
                env[dst] = Ptr(self.newobj(st, n, 0 if nm.endswith("zeroed") else None), 0)
                return False
            if nm.endswith("___rust_dealloc"):
                return False
            if "memcmp" in nm or "bcmp" in nm:
                raise Unsupported("memcmp")
            raise Unsupported("call to " + nm)
        self.push(st, f, [self.val(st, fr, t, v) for t, v in args], dst)
        if len(st.frames) > 200:
            raise Unsupported("recursion")
        return False

    def intrinsic(self, st, fr, name, args, rt):
        a = [self.val(st, fr, t, v) for t, v in args]
        base = name[6:]
        w = args[0][0][1] if args and args[0][0][0] == "i" else None
        if base.startswith(("assume", "donothing")):
            return None
        if base.startswith(("memcpy", "memmove")):
            d, s, n = a[0], a[1], a[2]
            if not isinstance(n, int):
                raise Unsupported("memcpy of symbolic length")
            if n == 0:
                return None
            if not (isinstance(d, Ptr) and isinstance(s, Ptr) and isinstance(d.off, int)):
                raise Unsupported("memcpy with symbolic destination")
            if not isinstance(s.off, int):
                vals = [self.load(st, Ptr(s.o, binop("add", 64, s.off, i)), ("i", 8)) for i in range(n)]
                c = self.wcells(st, d.o)
                if d.off + n > len(c):
                    self.fail(st, z3.BoolVal(True), "memcpy out of bounds")
                    raise Infeasible()
                c[d.off:d.off + n] = vals
                return None
            src = self.cells(st, s.o)
            c = self.wcells(st, d.o)
            if s.off + n > len(src) or d.off + n > len(c):
                self.fail(st, z3.BoolVal(True), "memcpy out of bounds")
                raise Infeasible()
            c[d.off:d.off + n] = src[s.off:s.off + n]
            return None
        if base.startswith("memset"):
            d, v, n = a[0], a[1], a[2]
            if not isinstance(n, int) or (n and not isinstance(d.off, int)):
                raise Unsupported("memset of symbolic length")
            if n == 0:
                return None
            c = self.wcells(st, d.o)
            if d.off + n > len(c):
                self.fail(st, z3.BoolVal(True), "memset out of bounds")
                raise Infeasible()
            c[d.off:d.off + n] = [v] * n
            return None
        if any(v is None for v in a):
            return None
        m = re.match(r"([us])(add|sub|mul)\.with\.overflow", base)
        if m:
            sg, o = m.group(1), m.group(2)
            r = binop(o, w, a[0], a[1])
            if sg == "s":
                ra, rb = srange(a[0], w), srange(a[1], w)
            else:
                ra, rb = urange(a[0], w), urange(a[1], w)
            cs = [p + q if o == "add" else p - q if o == "sub" else p * q for p in ra for q in rb]
            lo, hi = min(cs), max(cs)
            L, H = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg == "s" else (0, mask(w))
            if L <= lo and hi <= H:
                return (r, 0)
            if hi < L or lo > H:
                return (r, 1)
            if o == "sub" and sg == "u":
                return (r, icmp("ult", w, a[0], a[1]))
            k = 2 * w if o == "mul" else w + 1
            ext = (lambda v: mk(bitsof(v, w) + (bitsof(v, w)[-1],) * (k - w))) if sg == "s" else (lambda v: mk(bitsof(v, w) + (0,) * (k - w)))
            full = binop(o, k, ext(a[0]), ext(a[1]))
            fb = bitsof(full, k)
            if sg == "u":
                return (r, binop("xor", 1, eqv(mk(fb[w:]), 0, k - w), 1))
            back = mk(fb[:w] + (fb[w - 1],) * (k - w))
            return (r, binop("xor", 1, eqv(full, back, k), 1))
        m = re.match(r"([us])(min|max)\.", base)
        if m:
            c = icmp(m.group(1) + "lt", w, a[0], a[1])
            x, y = (a[0], a[1]) if m.group(2) == "min" else (a[1], a[0])
            r = select(c, x, y, w)
            if isinstance(r, S):
                ra, rb = (srange(a[0], w), srange(a[1], w)) if m.group(1) == "s" else (urange(a[0], w), urange(a[1], w))
                f = min if m.group(2) == "min" else max
                rng = (f(ra[0], rb[0]), f(ra[1], rb[1]))
                bits = r.bits
                if rng[0] >= 0 and rng[1] < 1 << (w - 1):
                    k = rng[1].bit_length()
                    bits = bits[:k] + (0,) * (w - k)
                    r = mk(bits, rng)
                elif m.group(1) == "s":
                    r = mk(bits, rng)
            return r
        if base.startswith("abs."):
            c = icmp("slt", w, a[0], 0)
            return select(c, binop("sub", w, 0, a[0]), a[0], w)
        if base.startswith("usub.sat"):
            c = icmp("ult", w, a[0], a[1])
            return select(c, 0, binop("sub", w, a[0], a[1]), w)
        if base.startswith("uadd.sat"):
            k = w + 1
            f = binop("add", k, mk(bitsof(a[0], w) + (0,)), mk(bitsof(a[1], w) + (0,)))
            return select(mk((bitsof(f, k)[w],)), mask(w), mk(bitsof(f, k)[:w]), w)
        if base.startswith("bswap"):
            b = bitsof(a[0], w)
            return mk(tuple(y for i in reversed(range(w // 8)) for y in b[8 * i:8 * i + 8]))
        if base.startswith("bitreverse"):
            return mk(tuple(reversed(bitsof(a[0], w))))
        if base.startswith(("fshl", "fshr")):
            if not isinstance(a[2], int):
                raise Unsupported("symbolic funnel shift")
            k = a[2] % w
            cat = bitsof(a[1], w) + bitsof(a[0], w)
            return mk(cat[w - k:2 * w - k] if base.startswith("fshl") else cat[k:k + w])
        if base.startswith(("ctlz", "cttz", "ctpop")):
            v = a[0]
            if isinstance(v, int):
                if base.startswith("ctpop"):
                    return bin(v).count("1")
                if base.startswith("ctlz"):
                    return w - v.bit_length()
                return (v & -v).bit_length() - 1 if v else w
            b = v.bits
            if base.startswith("ctpop"):
                r = 0
                for y in b:
                    r = binop("add", w, r, mk((y,) + (0,) * (w - 1)))
                return r
            r = w
            order = range(w) if base.startswith("ctlz") else reversed(range(w))
            for i in order:
                r = select(mk((b[i],)), (w - 1 - i) if base.startswith("ctlz") else i, r, w)
            return r
        if base.startswith("scmp") or base.startswith("ucmp"):
            ww = rt[1]
            p = base[0]
            return select(icmp(p + "lt", w, a[0], a[1]), mask(ww), select(eqv(a[0], a[1], w), 0, 1, ww), ww)
        if base.startswith("fabs"):
            v = a[0]
            return FS(v.base, np.abs(v.tab)) if isinstance(v, FS) else abs(v)
        if base.startswith(("maxnum", "minnum", "maximumnum", "minimumnum")):
            bs, (p, q) = union(a)
            f = np.fmax if base.startswith("max") else np.fmin
            r = f(np.asarray(p, np.float32), np.asarray(q, np.float32))
            return FS(bs, r) if bs else float(r)
        m = re.match(r"fpto([us])i\.sat\.i(\d+)\.f32", base)
        if m:
            ww = int(m.group(2))
            lo, hi = (-(1 << (ww - 1)), (1 << (ww - 1)) - 1) if m.group(1) == "s" else (0, mask(ww))
            v = a[0]
            arr = np.asarray(v.tab if isinstance(v, FS) else v, np.float32).astype(np.float64)
            with np.errstate(all="ignore"):
                r = np.where(np.isnan(arr), 0, np.clip(np.trunc(arr), lo, hi))
            if not isinstance(v, FS):
                return int(r) & mask(ww)
            return table_value(v.base, r.astype(np.int64).astype(np.uint64) & umask(ww), ww)
        if base.startswith("load.relative"):
            p, o = a
            if not isinstance(o, int):
                raise Unsupported("load.relative with a symbolic index")
            c = self.cells(st, p.o)
            at = (p.off + signed(o, w or 64)) & mask(64)
            if at + 4 > len(c):
                self.fail(st, z3.BoolVal(True), "load out of bounds")
                raise Infeasible()
            r = c[at]
            if not (isinstance(r, PB) and isinstance(r.p, Rel) and r.i == 0 and r.p.o == p.o):
                raise Unsupported("load.relative of other data")
            return r.p.p
        if base.startswith("expect"):
            return a[0]
        if base.startswith("is.constant"):
            return 0
        raise Unsupported("intrinsic " + name)
