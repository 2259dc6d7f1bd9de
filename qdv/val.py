"""Values of the symbolic executor: python ints or z3 bit-vectors, python bools or
z3 Bools, pointers, vectors (Vec), aggregates (tuples)."""
import z3

BVN = {}


class Unsupported(Exception):
    pass


def is_c(x):
    return isinstance(x, int)


def bv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    return x


def mask(w):
    return (1 << w) - 1


def sgn(x, w):
    x &= mask(w)
    return x - (1 << w) if x >> (w - 1) else x


# ---- linear forms over 2^w
LIN = {}


def lin(t, w):
    """(constant, {id: (term, coefficient)})"""
    if isinstance(t, int):
        return (t & mask(w), {})
    k = t.get_id()
    r = LIN.get(k)
    if r is not None:
        return r[1]
    r = lin1(t, w)
    LIN[k] = (t, r)
    return r


def lin1(t, w):
    m = mask(w)
    if z3.is_bv_value(t):
        return (t.as_long(), {})
    d = t.decl().kind()
    ch = t.children() if d in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL, z3.Z3_OP_BSHL) else ()
    if d == z3.Z3_OP_BADD:
        c, a = 0, {}
        for x in ch:
            c2, b = lin(x, w)
            c = (c + c2) & m
            a = addd(a, b, 1, m)
        return c, a
    if d == z3.Z3_OP_BSUB:
        c, a = lin(ch[0], w)
        for x in ch[1:]:
            c2, b = lin(x, w)
            c = (c - c2) & m
            a = addd(a, b, -1, m)
        return c, a
    if d == z3.Z3_OP_BNEG:
        c, a = lin(ch[0], w)
        return (-c) & m, {k: (x, (-y) & m) for k, (x, y) in a.items()}
    if d == z3.Z3_OP_BMUL and len(ch) == 2:
        for i in (0, 1):
            if z3.is_bv_value(ch[i]):
                s = ch[i].as_long()
                c, a = lin(ch[1 - i], w)
                return (c * s) & m, {k: (x, (y * s) & m) for k, (x, y) in a.items() if (y * s) & m}
        c1, a1 = lin(ch[0], w)
        c2, a2 = lin(ch[1], w)
        if not a1 or not a2:
            s, (c, a) = (c1, (c2, a2)) if not a1 else (c2, (c1, a1))
            return (c * s) & m, {k: (x, (y * s) & m) for k, (x, y) in a.items() if (y * s) & m}
        if len(a1) + len(a2) > 2 or c1 or c2:   # distribute
            c, a = (c1 * c2) & m, {}
            a = addd(a, {k: (x, (y * c2) & m) for k, (x, y) in a1.items() if (y * c2) & m}, 1, m)
            a = addd(a, {k: (x, (y * c1) & m) for k, (x, y) in a2.items() if (y * c1) & m}, 1, m)
            for k1, (x1, y1) in a1.items():
                for k2, (x2, y2) in a2.items():
                    p = monom(x1, x2)
                    y = (y1 * y2) & m
                    if y:
                        a = addd(a, {p.get_id(): (p, y)}, 1, m)
            return c, a
        p = monom(ch[0], ch[1])
        return 0, {p.get_id(): (p, 1)}
    if d == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]):
        s = 1 << ch[1].as_long()
        c, a = lin(ch[0], w)
        return (c * s) & m, {k: (x, (y * s) & m) for k, (x, y) in a.items() if (y * s) & m}
    return 0, {k: v for k, v in ((t.get_id(), (t, 1)),)}


MON = {}


def monom(x, y):
    """canonical product of two atoms"""
    def fac(t):
        if z3.is_app_of(t, z3.Z3_OP_BMUL):
            r = []
            for c in t.children():
                r += fac(c)
            return r
        return [t]
    f = sorted(fac(x) + fac(y), key=lambda t: t.get_id())
    p = f[0]
    for t in f[1:]:
        p = p * t
    MON[p.get_id()] = p
    return p


def addd(a, b, s, m):
    a = dict(a)
    for k, (x, y) in b.items():
        if k in a:
            z = (a[k][1] + s * y) & m
            if z:
                a[k] = (x, z)
            else:
                del a[k]
        else:
            a[k] = (x, (s * y) & m)
    return a


def unlin(l, w):
    c, a = l
    t = None
    for k in sorted(a):
        x, y = a[k]
        if y == 1:
            u = x
        elif y > mask(w) >> 1 and mask(w) - y + 1 < 1 << 16:
            u = x * z3.BitVecVal(y, w)
        else:
            u = x * z3.BitVecVal(y, w)
        t = u if t is None else t + u
    if t is None:
        return c
    if c:
        t = t + z3.BitVecVal(c, w)
    if t.get_id() not in LIN:
        LIN[t.get_id()] = (t, l)
    return t


def add(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a + b) & mask(w)
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    if w == 64 or w == 32:
        l1, l2 = lin(a, w), lin(b, w)
        return unlin(((l1[0] + l2[0]) & mask(w), addd(l1[1], l2[1], 1, mask(w))), w)
    return bv(a, w) + bv(b, w)


def sub(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a - b) & mask(w)
    if isinstance(b, int) and b == 0:
        return a
    if w == 64 or w == 32:
        l1, l2 = lin(a, w), lin(b, w)
        return unlin(((l1[0] - l2[0]) & mask(w), addd(l1[1], l2[1], -1, mask(w))), w)
    a, b = bv(a, w), bv(b, w)
    if a.eq(b):
        return 0
    return a - b


def mul(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return (a * b) & mask(w)
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == 1:
            return a
        if w == 64 or w == 32:
            c, d = lin(a, w)
            m = mask(w)
            return unlin(((c * b) & m, {k: (x, (y * b) & m) for k, (x, y) in d.items() if (y * b) & m}), w)
        return a * z3.BitVecVal(b, w)
    if a.get_id() > b.get_id():
        a, b = b, a
    if w == 64:
        t = a * b
        return unlin(lin(t, w), w)
    return a * b


def log2(n):
    return n.bit_length() - 1 if n > 0 and n & (n - 1) == 0 else None


def udiv(w, a, b):
    if isinstance(a, int) and isinstance(b, int) and b:
        return a // b
    if isinstance(b, int):
        if b == 1:
            return a
        if w == 64 and b:
            c, d = lin(a, w)
            # exact only when nothing can wrap; that is not known here, so keep a real division
        k = log2(b)
        if k is not None:
            return z3.LShR(bv(a, w), z3.BitVecVal(k, w))
    if isinstance(a, int) and a == 0:
        return 0
    return z3.UDiv(bv(a, w), bv(b, w))


def urem(w, a, b):
    if isinstance(a, int) and isinstance(b, int) and b:
        return a % b
    if isinstance(b, int):
        if b == 1:
            return 0
        k = log2(b)
        if k is not None:
            return bv(a, w) & z3.BitVecVal(b - 1, w)
    if isinstance(a, int) and a == 0:
        return 0
    return z3.URem(bv(a, w), bv(b, w))


def sdiv(w, a, b):
    if isinstance(a, int) and isinstance(b, int) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & mask(w)
    return bv(a, w) / bv(b, w)


def srem(w, a, b):
    if isinstance(a, int) and isinstance(b, int) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) % abs(y)
        return (-q if x < 0 else q) & mask(w)
    return z3.SRem(bv(a, w), bv(b, w))


def band(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return 0
        if b == mask(w):
            return a
        if (b & (b + 1)) == 0:   # low bits
            k = b.bit_length()
            x = trunc(w, k, a)
            return zext(k, w, x)
    elif a.eq(b):
        return a
    return bv(a, w) & bv(b, w)


def bor(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
        if b == mask(w):
            return b
    elif a.eq(b):
        return a
    return bv(a, w) | bv(b, w)


def bxor(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if b == 0:
            return a
    elif a.eq(b):
        return 0
    elif a.get_id() > b.get_id():
        a, b = b, a
    return bv(a, w) ^ bv(b, w)


def shl(w, a, b):
    if isinstance(b, int):
        if b == 0:
            return a
        if b >= w:
            return 0
        if isinstance(a, int):
            return (a << b) & mask(w)
        if w == 64 or w == 32:
            return mul(w, a, 1 << b)
        return z3.Concat(z3.Extract(w - 1 - b, 0, a), z3.BitVecVal(0, b))
    return bv(a, w) << bv(b, w)


def lshr(w, a, b):
    if isinstance(b, int):
        if b == 0:
            return a
        if b >= w:
            return 0
        if isinstance(a, int):
            return a >> b
        if w == 64 and UBK:
            c, co = lin(a, w)
            k = 1 << b
            if c % k == 0 and all(y % k == 0 for x, y in co.values()) and c + sum(ub(x, w) * y for x, y in co.values()) < 1 << w:
                return unlin((c >> b, {i: (x, y >> b) for i, (x, y) in co.items()}), w)
        return zext(w - b, w, extract(w, w - 1, b, a))
    return z3.LShR(bv(a, w), bv(b, w))


def ashr(w, a, b):
    if isinstance(b, int):
        if b == 0:
            return a
        if isinstance(a, int):
            return (sgn(a, w) >> min(b, w - 1)) & mask(w)
    return bv(a, w) >> bv(b, w)


def extract(w, hi, lo, a):
    if isinstance(a, int):
        return (a >> lo) & mask(hi - lo + 1)
    if lo == 0 and hi == w - 1:
        return a
    d = a.decl().kind()
    if d == z3.Z3_OP_EXTRACT:
        h0, l0 = a.params()
        return extract(a.arg(0).size(), l0 + hi, l0 + lo, a.arg(0))
    if d == z3.Z3_OP_CONCAT:
        o = w
        for ch in a.children():
            o -= ch.size()
            if lo >= o and hi < o + ch.size():
                if z3.is_bv_value(ch):
                    return (ch.as_long() >> (lo - o)) & mask(hi - lo + 1)
                return extract(ch.size(), hi - o, lo - o, ch)
        # range over several children
        o = w
        parts = []
        for ch in a.children():
            o -= ch.size()
            l, h = max(lo, o), min(hi, o + ch.size() - 1)
            if l <= h:
                parts.append((extract(ch.size(), h - o, l - o, ch if not z3.is_bv_value(ch) else ch.as_long()), h - l + 1))
        return concat(parts)
    if d == z3.Z3_OP_ZERO_EXT:
        x = a.arg(0)
        n = x.size()
        if hi < n:
            return extract(n, hi, lo, x)
        if lo >= n:
            return 0
        return zext(n - lo, hi - lo + 1, extract(n, n - 1, lo, x))
    if d == z3.Z3_OP_SIGN_EXT:
        x = a.arg(0)
        if hi < x.size():
            return extract(x.size(), hi, lo, x)
    if d == z3.Z3_OP_ITE and (z3.is_bv_value(a.arg(1)) or z3.is_bv_value(a.arg(2))):
        return ite(a.arg(0), extract(w, hi, lo, unval(a.arg(1))), extract(w, hi, lo, unval(a.arg(2))), hi - lo + 1)
    if lo == 0 and d == z3.Z3_OP_BMUL and a.num_args() == 2:
        n = hi + 1
        x, y = extract(w, hi, 0, unval(a.arg(0))), extract(w, hi, 0, unval(a.arg(1)))
        if all(isinstance(t, int) or t.decl().kind() != z3.Z3_OP_EXTRACT for t in (x, y)):
            return mul(n, x, y)
    if d in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR) and a.num_args() == 2:
        f = {z3.Z3_OP_BAND: band, z3.Z3_OP_BOR: bor, z3.Z3_OP_BXOR: bxor}[d]
        n = hi - lo + 1
        return f(n, extract(w, hi, lo, unval(a.arg(0))), extract(w, hi, lo, unval(a.arg(1))))
    return z3.Extract(hi, lo, a)


def unval(t):
    return t.as_long() if z3.is_bv_value(t) else t


def concat(parts):
    """parts: [(value, width)] most significant first"""
    out = []
    for v, w in parts:
        if out:
            v0, w0 = out[-1]
            if isinstance(v, int) and isinstance(v0, int):
                out[-1] = ((v0 << w) | v, w0 + w)
                continue
            if not isinstance(v, int) and not isinstance(v0, int) and \
               v.decl().kind() == z3.Z3_OP_EXTRACT and v0.decl().kind() == z3.Z3_OP_EXTRACT and v.arg(0).eq(v0.arg(0)):
                h, l = v.params()
                h0, l0 = v0.params()
                if l0 == h + 1:
                    out[-1] = (extract(v.arg(0).size(), h0, l, v.arg(0)), w0 + w)
                    continue
        out.append((v, w))
    if len(out) == 1:
        return out[0][0]
    if len(out) == 2 and isinstance(out[0][0], int) and out[0][0] == 0:
        return z3.ZeroExt(out[0][1], out[1][0])
    return z3.Concat(*[bv(v, w) for v, w in out])


NSW = {}   # id -> (narrow term, wide term equal to its sign extension)
NUW = {}
LEAF_SEXT = [False]   # also for free variables of 32 bits (option 'leaf_sext')


def known_sext(a):
    """a 64-bit term equal to the sign extension of a, when that is an affine term"""
    if isinstance(a, int):
        return sgn(a, 32) & mask(64)
    if not isinstance(a, z3.ExprRef):
        return None
    r = NSW.get((a.get_id(), 64))
    if r is None and LEAF_SEXT[0] and z3.is_const(a) and a.size() == 32:
        return z3.SignExt(32, a)
    return None if r is None else r[1]


def zext(w, w2, a):
    if isinstance(a, int):
        return a
    if w == w2:
        return a
    r = NUW.get((a.get_id(), w2))
    if r is not None:
        return r[1]
    if a.decl().kind() == z3.Z3_OP_ZERO_EXT:
        return zext(a.arg(0).size(), w2, a.arg(0))
    return z3.ZeroExt(w2 - w, a)


def sext(w, w2, a):
    if isinstance(a, int):
        return sgn(a, w) & mask(w2)
    if w == w2:
        return a
    r = NSW.get((a.get_id(), w2))
    if r is not None:
        return r[1]
    if a.decl().kind() == z3.Z3_OP_ZERO_EXT:
        return zext(a.arg(0).size(), w2, a.arg(0))
    return z3.SignExt(w2 - w, a)


def trunc(w, w2, a):
    if isinstance(a, int):
        return a & mask(w2)
    return extract(w, w2 - 1, 0, a)


# ---- booleans
def is_t(c):
    return c is True


def is_f(c):
    return c is False


def unbool(c):
    if isinstance(c, bool):
        return c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def bnot(c):
    if isinstance(c, bool):
        return not c
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def b_and(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if any(c.eq(o) for o in out):
            continue
        out.append(c)
    for c in out:
        n = bnot(c)
        if any(n.eq(o) for o in out):
            return False
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*cs):
    r = b_and(*[bnot(c) for c in cs])
    return bnot(r)


def zb(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


def ite(c, a, b, w):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, int) and isinstance(b, int):
        if a == b:
            return a
    elif not isinstance(a, int) and not isinstance(b, int) and a.eq(b):
        return a
    if z3.is_not(c):
        c, a, b = c.arg(0), b, a
    # ite(c, x, ite(c, y, z)) = ite(c, x, z)
    if not isinstance(b, int) and z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(0).eq(c):
        b = unval(b.arg(2))
        return ite(c, a, b, w)
    if not isinstance(a, int) and z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(0).eq(c):
        return ite(c, unval(a.arg(1)), b, w)
    if w == 64:
        # ite(x = 0, 0, x) = x
        if z3.is_eq(c):
            for p, q in ((0, 1), (1, 0)):
                x, z = c.arg(p), c.arg(q)
                if z3.is_bv_value(z) and z.as_long() == 0 and not isinstance(b, int):
                    if isinstance(a, int) and a == 0 and b.eq(x):
                        return b
        # a common factor of both sides, so that offsets keep their alignment
        f = factor2(a, b)
        if f > 1:
            return mul(64, f, ite(c, div2(a, f), div2(b, f), 64))
    return z3.If(c, bv(a, w), bv(b, w))


def factor2(*xs):
    g = 0
    for x in xs:
        if isinstance(x, int):
            g |= x
        else:
            c, co = lin(x, 64)
            g |= c
            for _, y in co.values():
                g |= y
    return (g & -g) if g else 1


def div2(x, f):
    def d(y):
        return sgn(y, 64) // f & mask(64)
    if isinstance(x, int):
        return d(x)
    c, co = lin(x, 64)
    return unlin((d(c), {k: (a, d(y)) for k, (a, y) in co.items()}), 64)


def bite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else bnot(c)
    if a is True:
        return b_or(c, b)
    if a is False:
        return b_and(bnot(c), b)
    if b is True:
        return b_or(bnot(c), a)
    if b is False:
        return b_and(c, a)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


UBK = {}   # unconditional upper bounds of constants: id -> (constant, bound)


def learn_ub(c):
    if not isinstance(c, z3.ExprRef) or not z3.is_app(c):
        return
    k = c.decl().kind()
    if k == z3.Z3_OP_AND:
        for x in c.children():
            learn_ub(x)
        return
    n = False
    while k == z3.Z3_OP_NOT:
        n = not n
        c = c.arg(0)
        k = c.decl().kind()
    if k not in (z3.Z3_OP_ULT, z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
        return
    x, y = c.arg(0), c.arg(1)
    if k in (z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
        x, y = y, x
    strict = k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT)
    if n:
        x, y, strict = y, x, not strict
    if z3.is_bv_value(y) and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('in_'):
        b = y.as_long() - (1 if strict else 0)
        if b >= 0:
            o = UBK.get(x.get_id())
            UBK[x.get_id()] = (x, b if o is None else min(b, o[1]))


def ub(x, w, depth=6):
    """an upper bound of the unsigned value"""
    if isinstance(x, int):
        return x
    d = x.decl().kind()
    if d == z3.Z3_OP_BNUM:
        return x.as_long()
    if d == z3.Z3_OP_UNINTERPRETED:
        r = UBK.get(x.get_id())
        return mask(w) if r is None else r[1]
    if d == z3.Z3_OP_EXTRACT:
        h, l = x.params()
        return min(mask(h - l + 1), ub(x.arg(0), x.arg(0).size(), depth - 1) >> l) if depth else mask(w)
    if d == z3.Z3_OP_ZERO_EXT:
        return ub(x.arg(0), x.arg(0).size(), depth - 1)
    if depth and d == z3.Z3_OP_ITE:
        return max(ub(x.arg(1), w, depth - 1), ub(x.arg(2), w, depth - 1))
    if depth and d == z3.Z3_OP_BAND:
        return min(ub(c, w, depth - 1) for c in x.children())
    return mask(w)


def eq(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if not isinstance(a, int) and not isinstance(b, int):
        if a.eq(b):
            return True
        if w == 64 or w == 32:
            d = sub(w, a, b)
            if isinstance(d, int):
                return d == 0
        if a.get_id() > b.get_id():
            a, b = b, a
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int):
        if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
            x, y = a.arg(1).as_long() == b, a.arg(2).as_long() == b
            return bite(a.arg(0), x, y)
        if z3.is_app_of(a, z3.Z3_OP_ZERO_EXT):
            n = a.arg(0).size()
            if b >> n:
                return False
            return eq(n, a.arg(0), b)
        if b > ub(a, w):
            return False
    return bv(a, w) == bv(b, w)


def ult(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    if isinstance(b, int) and b == 0:
        return False
    if isinstance(a, int) and a == mask(w):
        return False
    if isinstance(b, int) and ub(a, w) < b:
        return True
    if isinstance(a, int) and ub(b, w) <= a:
        return False
    if isinstance(a, int) and a == 0:
        return bnot(eq(w, b, 0))
    if isinstance(b, int) and b == 1:
        return eq(w, a, 0)
    a, b = bv(a, w), bv(b, w)
    if a.eq(b):
        return False
    return z3.ULT(a, b)


def slt(w, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return sgn(a, w) < sgn(b, w)
    a, b = bv(a, w), bv(b, w)
    if a.eq(b):
        return False
    return a < b


def icmp(pred, w, a, b):
    if pred == 'eq':
        return eq(w, a, b)
    if pred == 'ne':
        return bnot(eq(w, a, b))
    if pred == 'ult':
        return ult(w, a, b)
    if pred == 'ugt':
        return ult(w, b, a)
    if pred == 'uge':
        return bnot(ult(w, a, b))
    if pred == 'ule':
        return bnot(ult(w, b, a))
    if pred == 'slt':
        return slt(w, a, b)
    if pred == 'sgt':
        return slt(w, b, a)
    if pred == 'sge':
        return bnot(slt(w, a, b))
    if pred == 'sle':
        return bnot(slt(w, b, a))
    raise Unsupported('icmp ' + pred)


BINOP = dict(add=add, sub=sub, mul=mul, udiv=udiv, urem=urem, sdiv=sdiv, srem=srem, shl=shl, lshr=lshr, ashr=ashr,
             xor=bxor)
BINOP['and'] = band
BINOP['or'] = bor


class Vec:
    __slots__ = ('e', 'w')

    def __init__(self, e, w):
        self.e, self.w = list(e), w   # w: lane width in bits, 0 for i1 lanes (Bools), -1 for pointers


class Undef:
    pass


UNDEF = Undef()


class Ptr:
    __slots__ = ('reg', 'off', 'idx')

    def __init__(self, reg, off=0, idx=None):
        self.reg, self.off, self.idx = reg, off, idx

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.reg.name if self.reg else None, self.off, self.idx)


class PIte:
    """a choice of pointers"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def same(a, b):
    if a is b:
        return True
    if isinstance(a, (int, bool)) or isinstance(b, (int, bool)):
        return type(a) == type(b) and a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.reg is b.reg and same(a.off, b.off) and (a.idx is b.idx or (a.idx is not None and b.idx is not None and same(a.idx, b.idx)))
    if isinstance(a, Vec) and isinstance(b, Vec):
        return a.w == b.w and len(a.e) == len(b.e) and all(same(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, PIte) and isinstance(b, PIte):
        return a.c.eq(b.c) and same(a.a, b.a) and same(a.b, b.b)
    return False


def width_of(v):
    return v.size()


def vite(c, a, b, w=None):
    """choice between values of any kind"""
    if c is True:
        return a
    if c is False:
        return b
    if same(a, b):
        return a
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg and a.reg is not None and (a.idx is None) == (b.idx is None):
            return Ptr(a.reg, ite(c, a.off, b.off, 64), None if a.idx is None else ite(c, a.idx, b.idx, 64))
        if isinstance(a, PIte) and a.c.eq(c):
            a = a.a
        if isinstance(b, PIte) and b.c.eq(c):
            b = b.b
        if same(a, b):
            return a
        return PIte(c, a, b)
    if isinstance(a, Vec):
        return Vec([vite(c, x, y, a.w) for x, y in zip(a.e, b.e)], a.w)
    if isinstance(a, tuple):
        return tuple(vite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, z3.ExprRef) and z3.is_bool(a)) or (isinstance(b, z3.ExprRef) and z3.is_bool(b)):
        return bite(c, a, b)
    if isinstance(a, float) or isinstance(b, float):
        raise Unsupported('choice of floats')
    if w is None or w <= 0:
        if not isinstance(a, int):
            w = a.size()
        elif not isinstance(b, int):
            w = b.size()
        else:
            raise Unsupported('width of a choice')
    return ite(c, a, b, w)


def subst(v, pairs):
    """substitute z3 constants in a value of any kind; pairs: [(z3 const, value)]"""
    if isinstance(v, (int, bool, Undef, float, str)) or v is None:
        return v
    if isinstance(v, z3.ExprRef):
        r = z3.substitute(v, *[(k, bv(x, k.size()) if z3.is_bv(k) else zb(x)) for k, x in pairs])
        if z3.is_bv(r):
            if z3.is_bv_value(r):
                return r.as_long()
            if r.size() == 64 or r.size() == 32:
                return unlin(lin(r, r.size()), r.size())
            return r
        return unbool(r)
    if isinstance(v, Ptr):
        return Ptr(v.reg, subst(v.off, pairs), None if v.idx is None else subst(v.idx, pairs))
    if isinstance(v, PIte):
        return vite(subst(v.c, pairs), subst(v.a, pairs), subst(v.b, pairs))
    if isinstance(v, Vec):
        return Vec([subst(x, pairs) for x in v.e], v.w)
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    raise Unsupported('substitute in %r' % type(v))


def consts_of(v, acc=None, seen=None):
    """ids -> z3 uninterpreted constants in a value"""
    if acc is None:
        acc = {}
    if seen is None:
        seen = set()
    if isinstance(v, z3.ExprRef):
        st = [v]
        while st:
            t = st.pop()
            k = t.get_id()
            if k in seen:
                continue
            seen.add(k)
            if z3.is_app(t):
                if t.num_args() == 0:
                    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        acc[k] = t
                else:
                    st.extend(t.children())
    elif isinstance(v, Ptr):
        consts_of(v.off, acc, seen)
        if v.idx is not None:
            consts_of(v.idx, acc, seen)
    elif isinstance(v, PIte):
        consts_of(v.c, acc, seen); consts_of(v.a, acc, seen); consts_of(v.b, acc, seen)
    elif isinstance(v, Vec):
        for x in v.e:
            consts_of(x, acc, seen)
    elif isinstance(v, tuple):
        for x in v:
            consts_of(x, acc, seen)
    return acc
