"""Ring operations as contracts over normal forms.

RingModN<T>::add, sub, neg, mul (and exp, inv, ... on known operands) are exact modulo the
cardinal (proved under C07), so an expression built from them has, for every value of its leaves,
the value of the polynomial over Z/p obtained by expanding it.  `equal` decides the equality of two
such expressions by comparing the expansions; the leaves stand for arbitrary elements, so equality
of the expansions is equality for every input."""
import re
import z3
from .val import *

# fixed polynomials of the binary extensions (C09 checks that the code uses these)
POLY = {1: 0x3, 2: 0x7, 3: 0xb, 4: 0x13, 8: 0x11d, 16: 0x1100b, 32: 1 << 32 | 0x8d, 64: 1 << 64 | 0x1b, 128: 1 << 128 | 0x87}


class Zp:
    """Z/p"""
    char2 = False

    def __init__(self, p):
        self.card, self.key = p, 'p%d' % p

    def const(self, c):
        return c % self.card

    def add(self, a, b):
        return (a + b) % self.card

    def neg(self, a):
        return -a % self.card

    def mul(self, a, b):
        return a * b % self.card


class Gf2:
    """GF(2^n)"""
    char2 = True

    def __init__(self, n):
        self.n, self.card, self.key, self.poly = n, 1 << n, 'b%d' % n, POLY[n]

    def const(self, c):
        return c

    def add(self, a, b):
        return a ^ b

    def neg(self, a):
        return a

    def mul(self, a, b):
        r = 0
        while b:
            if b & 1:
                r ^= a
            a <<= 1
            if a >> self.n:
                a ^= self.poly
            b >>= 1
        return r

    def exp(self, a, e):
        r = 1
        while e:
            if e & 1:
                r = self.mul(r, a)
            a = self.mul(a, a)
            e >>= 1
        return r

    def inv(self, a):
        return self.exp(a, self.card - 2)


RINGS = {}


def ring(p=None, n=None):
    k = (p, n)
    if k not in RINGS:
        RINGS[k] = Zp(p) if p else Gf2(n)
    return RINGS[k]


WIDTH = (('short', 16), ('int', 32), ('long', 64))


def method(ex, rx, this):
    for n, d in ex.names.items():
        if d.startswith(rx):
            v, g, exc = ex.run(n, [this])
            ex.g = g
            return v
    raise Unsupported('no method ' + rx)


TY = {16: 'short', 32: 'int', 64: 'long'}


def card_of(ex, this, w, i=None):
    """the modulus of the ring the operation is called on"""
    return method(ex, 'quadiron::gf::RingModN<unsigned %s>::card() const' % TY[w], this)


def ring_of(ex, this, w, ext):
    if ext:
        c = method(ex, 'quadiron::gf::BinExtension<unsigned %s>::card_minus_one() const' % TY[w], this)
        if not isinstance(c, int):
            raise Unsupported('field of an unknown size')
        return ring(n=c.bit_length())
    c = card_of(ex, this, w)
    if not isinstance(c, int):
        raise Unsupported('ring operation with a modulus that is not known')
    return ring(p=c)


def op(kind, w, ext=False):
    s = z3.BitVecSort(w)

    def h(ex, args, i):
        xs = list(args[1:])
        known = all(isinstance(x, int) for x in xs)
        if known and not ext:
            return ex.plain(i)
        R = ring_of(ex, args[0], w, ext)
        if known:
            # an operation on known elements: its contract is evaluated
            if any(x >= R.card for x in xs) and kind != 'exp':
                raise Unsupported('ring operation on a constant that is not reduced')
            if kind == 'div':
                if xs[1] == 0:
                    raise Unsupported('division by 0')
                return R.mul(xs[0], R.inv(xs[1]))
            if kind == 'inv':
                if xs[0] == 0:
                    raise Unsupported('inverse of 0')
                return R.inv(xs[0])
            if kind == 'exp':
                return R.exp(xs[0], xs[1])
            return {'add': R.add, 'sub': R.add, 'mul': R.mul, 'neg': R.neg}[kind](*xs)
        if kind in ('div', 'inv', 'exp'):
            if kind == 'div' and isinstance(xs[1], int) and xs[1]:
                xs, kind_ = [xs[0], R.inv(xs[1])], 'mul'
            else:
                raise Unsupported('%s of an unknown element' % kind)
        else:
            kind_ = kind
        return make(ex, R, kind_, xs, w)
    return h


def make(ex, R, kind, xs, w):
    s = z3.BitVecSort(w)
    # 0 and 1 are simplified: exact for reduced operands
    a = xs[0]
    b = xs[1] if len(xs) > 1 else None
    for x in xs:
        if isinstance(x, int):
            if x >= R.card:
                raise Unsupported('ring operation on a constant that is not reduced')
        else:
            reduced(ex, x, w, R)
    if kind == 'mul':
        if isinstance(b, int):
            a, b = b, a
        if isinstance(a, int) and a == 0:
            return 0
        if isinstance(a, int) and a == 1:
            return b
    elif kind == 'add' or kind == 'sub' and R.char2:
        if isinstance(a, int) and a == 0:
            return b
        if isinstance(b, int) and b == 0:
            return a
    elif kind == 'sub':
        if isinstance(b, int) and b == 0:
            return a
    elif kind == 'neg' and R.char2:
        return a
    f = z3.Function('ring_%s_%d_%s' % (kind, w, R.key), *([s] * ((2 if b is not None else 1) + 1)))
    ex.ring = getattr(ex, 'ring', {})
    ex.ring[f.name()] = (kind, R)
    if R.card < 1 << w:
        ex.axioms[f.name()] = lambda app: [z3.ULT(app, R.card)]
    return f(*[bv(x, w) for x in ([a, b] if b is not None else [a])])


def is_ring(ex, t, p):
    k = getattr(ex, 'ring', {}).get(t.decl().name()) if z3.is_app(t) else None
    return k and k[1] == p


def reduced(ex, x, w, p):
    """precondition of the ring operations: the operand is below the modulus"""
    if p.card >> w:
        return
    todo, seen = [x], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_bv_value(t):
            if t.as_long() >= p.card:
                raise Unsupported('ring operation on a constant that is not reduced')
        elif is_ring(ex, t, p):
            pass
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            todo += [t.arg(1), t.arg(2)]
        else:
            done = ex.__dict__.setdefault('ring_ok', {})
            if (t.get_id(), p) in done:
                continue
            done[t.get_id(), p] = t
            if expand(ex, t, p)[1] < p.card:
                continue
            ex.oblige('operand of a ring operation is below the modulus', z3.ULT(t, p.card), kind='precondition')


SUBST = [(re.compile(r'quadiron::gf::RingModN<unsigned %s>::%s\(unsigned %s(, unsigned %s)?\) const' % (t, k, t, t)), op(k, w))
         for t, w in WIDTH for k in ('add', 'sub', 'mul', 'neg')]


def nothing(ex, args, i):
    return None


# GF(2^n): the tables are not built, the operations are their contracts (C09)
SUBST_EXT = [(re.compile(r'quadiron::gf::BinExtension<unsigned %s>::%s\(unsigned %s(, unsigned %s)?\) const' % (t, k, t, t)), op(k, w, True))
             for t, w in WIDTH for k in ('add', 'sub', 'mul', 'neg', 'div', 'inv', 'exp')] + [
    (re.compile(r'quadiron::gf::BinExtension<unsigned \w+>::setup(_split)?_tables\('), nothing)]


# ------------------------------------------------------------------ normal forms
def padd(a, b, p, sign=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = p.add(r.get(m, 0), c if sign > 0 else p.neg(c))
    return {m: c for m, c in r.items() if c}


def pmul(a, b, p):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = p.add(r.get(k, 0), p.mul(c, d))
    return {m: c for m, c in r.items() if c}


def children(ex, x, p):
    """subterms to expand first, or None for a leaf"""
    if z3.is_bv_value(x):
        return []
    if not z3.is_app(x) or not x.num_args() or not z3.is_bv(x):
        return None
    k = x.decl().kind()
    if p.char2:
        if is_ring(ex, x, p) or k in (z3.Z3_OP_BXOR, z3.Z3_OP_ZERO_EXT):
            return x.children()
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB):
            return None
    if is_ring(ex, x, p) or k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB, z3.Z3_OP_ZERO_EXT):
        return x.children()
    if k == z3.Z3_OP_ITE:
        return x.children()[1:]
    if k == z3.Z3_OP_CONCAT:
        c = x.children()
        if all(z3.is_bv_value(y) and y.as_long() == 0 for y in c[:-1]):
            return [c[-1]]
    if k == z3.Z3_OP_EXTRACT and x.params()[1] == 0:
        return x.children()
    if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() == p.card and not p.char2:
        return [x.arg(0)]
    return None


def expand(ex, t, p, conds=()):
    """(polynomial over Z/p: {sorted tuple of leaves: coefficient}, upper bound) of the integer value
    of a term.  Machine arithmetic is expanded only where it cannot wrap around."""
    memo = ex.__dict__.setdefault('ring_nf', {})
    leaves = ex.__dict__.setdefault('ring_leaf', {})
    ck = tuple(c.get_id() for c in conds)
    stack = [t]
    while stack:
        x = stack[-1]
        key = (x.get_id(), p, ck)
        if key in memo:
            stack.pop()
            continue
        ch = children(ex, x, p)
        if ch:
            if x.decl().kind() == z3.Z3_OP_ITE:
                c = x.arg(0)
                r = [expand(ex, ch[0], p, conds + (c,)), expand(ex, ch[1], p, conds + (z3.Not(c),))]
                r = choice(ex, c, r[0], r[1], p, conds)
            else:
                todo = [c for c in ch if (c.get_id(), p, ck) not in memo]
                if todo:
                    stack += todo
                    continue
                r = combine(ex, x, [(c,) + memo[c.get_id(), p, ck][1] for c in ch], p, conds)
        elif ch == []:
            v = x.as_long()
            r = ({(): p.const(v)} if p.const(v) else {}, v)
        else:
            r = None
        if r is None:
            leaves[x.get_id()] = x
            r = ({(x.get_id(),): 1}, bound(ex, x, p))
        memo[key] = (x, r)
        stack.pop()
    return memo[t.get_id(), p, ck][1]


def zero_of(c):
    """(y, True) when c says that y is zero, (y, False) when it says that it is not"""
    pol = True
    while z3.is_not(c):
        pol, c = not pol, c.arg(0)
    k = c.decl().kind()
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and c.num_args() == 2 and z3.is_bv(c.arg(0)):
        a, b = c.children()
        if z3.is_bv_value(a):
            a, b = b, a
        if z3.is_bv_value(b) and b.as_long() == 0:
            return a, pol == (k == z3.Z3_OP_EQ)
    if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_UGT, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ):
        a, b = c.children()
        if k in (z3.Z3_OP_ULT, z3.Z3_OP_UGEQ):      # 0 < a
            a, b, k = b, a, {z3.Z3_OP_ULT: z3.Z3_OP_UGT, z3.Z3_OP_UGEQ: z3.Z3_OP_ULEQ}[k]
        if z3.is_bv_value(b) and b.as_long() == 0:
            return a, pol == (k == z3.Z3_OP_ULEQ)
    return None


def choice(ex, c, a, b, p, conds):
    """a where c holds, b elsewhere"""
    ub = max(a[1], b[1])
    if a[0] == b[0]:
        return a[0], ub
    z = zero_of(c)
    if z is None:
        return None
    y = expand(ex, z[0], p, conds)[0]
    diff = padd(a[0], b[0], p, -1)
    if set(y) != set(diff):
        return None
    m = min(y)
    f = p.mul(diff[m], p.inv(y[m])) if hasattr(p, 'inv') else None
    if y == diff or y == {k: p.neg(v) for k, v in diff.items()} or f is not None and {k: p.mul(v, f) for k, v in y.items()} == diff:
        # the two differ by a multiple of y, which is zero in one of the cases
        return (b if z[1] else a)[0], ub
    return None


def bound(ex, x, p):
    """a leaf that an axiom keeps below the modulus"""
    w = x.size()
    f = ex.axioms.get(x.decl().name()) if z3.is_app(x) else None
    if f:
        for a in f(x):
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ULEQ and a.arg(0).get_id() == x.get_id() and z3.is_bv_value(a.arg(1)):
                return a.arg(1).as_long()
            if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ULT and a.arg(0).get_id() == x.get_id() and z3.is_bv_value(a.arg(1)):
                return a.arg(1).as_long() - 1
    return (1 << w) - 1


def combine(ex, x, ch, p, conds):
    if is_ring(ex, x, p):
        kind = ex.ring[x.decl().name()][0]
        a = ch[0][1]
        if kind == 'neg':
            return {m: p.neg(c) for m, c in a.items()}, p.card - 1
        b = ch[1][1]
        return (pmul(a, b, p) if kind == 'mul' else padd(a, b, p, 1 if kind == 'add' else -1)), p.card - 1
    k, w = x.decl().kind(), x.size()
    if k == z3.Z3_OP_BXOR:
        r, ub = {}, 0
        for _, q, u in ch:
            r, ub = padd(r, q, p), max(ub, (1 << u.bit_length()) - 1)
        return r, ub
    if k in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_CONCAT):
        return ch[-1][1], ch[-1][2]
    if k == z3.Z3_OP_EXTRACT:
        return (ch[0][1], ch[0][2]) if ch[0][2] < 1 << w else None
    if k in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
        return ch[0][1], min(p.card - 1, ch[0][2])
    if k == z3.Z3_OP_BMUL:
        ub, r = 1, {(): p.const(1)}
        for _, q, u in ch:
            ub, r = ub * u, pmul(r, q, p)
        return (r, ub) if ub < 1 << w else None
    # sums: a coefficient above half the range stands for a subtraction
    parts = []
    for n, (t, q, u) in enumerate(ch):
        sign = -1 if k == z3.Z3_OP_BSUB and n else 1
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == mask(w):
            q, u = expand(ex, t.arg(1), p, conds)
            t, sign = t.arg(1), -sign
        elif z3.is_bv_value(t) and t.as_long() >> (w - 1):
            v = (1 << w) - t.as_long()
            t, q, u, sign = z3.BitVecVal(v, w), ({(): p.const(v)} if p.const(v) else {}), v, -sign
        parts.append((sign, t, q, u))
    r = {}
    for sign, t, q, u in parts:
        r = padd(r, q, p, sign)
    ub = sum(u for sign, t, q, u in parts if sign > 0)
    if all(sign > 0 for sign, t, q, u in parts) and ub < 1 << w:
        return r, ub
    # no wrap-around under the conditions met
    W = w + 8
    s = z3.BitVecVal(0, W)
    hyp = list(conds)
    for sign, t, q, u in parts:
        e = z3.ZeroExt(8, t)
        s = s + e if sign > 0 else s - e
        hyp.append(z3.ULE(t, z3.BitVecVal(min(u, mask(w)), w)))
    sv = z3.SolverFor('QF_UFBV')
    sv.set('rlimit', 2000000)
    for h in hyp:
        sv.add(h)
    sv.add(z3.Not(z3.And(s >= 0, s <= min(ub, mask(w)))))
    if sv.check() != z3.unsat:
        return None
    return r, min(ub, mask(w))


def resolve(ex, t):
    """choices whose condition is known at this point are taken"""
    memo = {}

    def one(x):
        """a choice between terms that the facts make equal to one of them"""
        todo, cand = [x], []
        while todo:
            y = todo.pop()
            if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE:
                todo += [y.arg(1), y.arg(2)]
            elif y.get_id() not in [c.get_id() for c in cand]:
                cand.append(y)
        for c in cand if len(cand) <= 4 else []:
            if ex.decide(x == c) is True:
                return go(c)
        return x

    def go(x):
        if x.get_id() in memo:
            return memo[x.get_id()][1]
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(x):
            c = ex.decide(x.arg(0))
            r = go(x.arg(1)) if c is True else go(x.arg(2)) if c is False else one(x)
        elif z3.is_app(x) and x.num_args() and x.decl().name() in getattr(ex, 'ring', {}):
            ch = [go(c) for c in x.children()]
            r = x.decl()(*ch) if any(a.get_id() != b.get_id() for a, b in zip(ch, x.children())) else x
        else:
            r = x
        memo[x.get_id()] = (x, r)
        return r
    return go(t)


def equal(ex, a, b, w, p, what):
    a, b = resolve(ex, bv(a, w)), resolve(ex, bv(b, w))
    d = padd(expand(ex, a, p)[0], expand(ex, b, p)[0], p, -1)
    if not d:
        # both sides are reduced elements of the ring with the same expansion
        for x in (a, b):
            if not z3.is_bv_value(x):
                reduced(ex, x, w, p)
            elif x.as_long() >= p.card:
                return ex.oblige(what, False, kind='assertion')
        ex.oblige(what, True, kind='ring')
    else:
        ex.oblige(what, a == b, kind='ring')


def word(w):
    def h(ex, vs, args, i):
        from .intrin import cstr
        a, b, p, what = vs
        ex.nassert = getattr(ex, 'nassert', 0) + 1
        if not isinstance(p, int):
            raise Unsupported('modulus')
        # 2^63 + n stands for GF(2^n)
        equal(ex, a, b, w, ring(n=p & 255) if p >> 63 else ring(p=p), cstr(ex, what))
    return h


OPTS = {'qdv': {'ring_eq_%d' % w: word(w) for w in (16, 32, 64)}}
