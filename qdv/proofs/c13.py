import itertools
import re
import z3
from ..val import *
from .common import redirect
from ..invariants import Cand, som, alternating, alternating_law
UNITS = [('c13.cpp', ['off'])]
LEVEL_NOTE = 'proved for every argument of 16-, 32- and 64-bit elements'
LEMMAS = ['laws.lean']
ASSUMPTIONS = ['the laws of modular powers, gcd and the Jacobi symbol used as axioms are the theorems of lemmas/laws.lean, transcribed to machine words',
               'powers without a modulus, gcd coefficients and quotients are stated in the machine arithmetic of the type (exact while nothing overflows)']
NOT_PROVED = ['factor_prime, factor_distinct_prime, get_*divisors, get_*factors, get_code_len*, chinese_remainder, solovay_strassen: generated cases only (growing std::vector)',
              'that the coefficients of extended_gcd do not overflow; that a number is_prime rejects has a divisor: generated cases only',
              '128-bit element types: generated cases only']
W = (('short', 16), ('int', 32), ('long', 64))


def fun(name, *ws):
    return z3.Function(name, *[z3.BitVecSort(w) for w in ws])


def mm(w, a, b, m):
    """the code's product modulo m of numbers of w bits"""
    return trunc(2 * w, w, urem(2 * w, mul(2 * w, zext(w, 2 * w, a), zext(w, 2 * w, b)), zext(w, 2 * w, m)))


def POW(w):
    return fun('pow%d' % w, w, w, w, w)


def pow_law(w):
    """b^0 = 1, b^e = (e odd ? b : 1) * (b*b)^(e/2), all modulo m; below m  (lemmas/pow.lean)"""
    P = POW(w)

    def ax(app):
        b, e, m = app.children()
        half = z3.LShR(e, 1)
        sq = P(bv(mm(w, b, b, m), w), half, m)
        return [z3.Implies(z3.And(z3.ULT(b, m), z3.UGT(m, 1)), z3.And(z3.ULT(app, m), z3.Implies(e == 0, app == 1))),
                z3.Implies(z3.And(e != 0, z3.Extract(0, 0, e) == 1), app == bv(mm(w, b, sq, m), w)),
                z3.Implies(z3.And(e != 0, z3.Extract(0, 0, e) == 0), app == sq)]
    return ax


def spec(kind, w):
    def h(ex, args, i):
        xs = [bv(x, w) for x in args]
        if kind == 'pow':
            ex.axioms['pow%d' % w] = once(pow_law(w))
            return POW(w)(*xs)
        if kind == 'wpow':
            ex.axioms['wpow%d' % w] = once(wpow_law(w))
            return fun('wpow%d' % w, w, w, w)(*xs)
        if kind == 'gcd':
            ex.axioms['gcd%d' % w] = once(gcd_law(w))
            return fun('gcd%d' % w, w, w, w)(*xs)
        if kind == 'jacobi':
            ex.axioms['jacobi%d' % w] = once(jacobi_law(w))
            return JAC(w)(*xs)
    return h


def JAC(w):
    return z3.Function('jacobi%d' % w, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(32))


def jacobi_law(w):
    """the rules of the Jacobi symbol, for an odd positive lower argument"""
    J = JAC(w)

    def ax(app):
        n, m = app.children()
        low = lambda x, b: z3.Extract(b - 1, 0, x)
        flip = lambda c, x: z3.If(c, -x, x)
        ok = z3.And(low(m, 1) == 1, m > 0)
        odd = low(n, 1) == 1
        return [z3.Implies(z3.And(ok, m == 1), app == 1), z3.Implies(z3.And(ok, m != 1, n == 0), app == 0),
                z3.Implies(z3.And(ok, m != 1, n != 0, z3.Not(odd)), app == flip(z3.Or(low(m, 3) == 3, low(m, 3) == 5), J(n / z3.BitVecVal(2, w), m))),
                z3.Implies(z3.And(ok, m != 1, n < 0, odd), app == flip(low(m, 2) == 3, J(-n, m))),
                z3.Implies(z3.And(ok, m != 1, n > 0, odd), app == flip(z3.And(low(n, 2) == 3, low(m, 2) == 3), J(z3.SRem(m, n), n)))]
    return ax


def jacobi_template(w):
    def f(ex, vs, K):
        J = JAC(w)
        ex.axioms['jacobi%d' % w] = once(jacobi_law(w))
        out = []
        for b in range(len(vs)):
            out.append(Cand('not one', lambda v, k, b=b: [v[b] != 1], tag=('one', b), needs=()))
        for j in range(len(vs)):
            for a, b in distinct(vs, 2, w):
                if j in (a, b) or vs[j].w != 32:
                    continue

                def g(v, k, j=j, a=a, b=b):
                    x = J(v[a], v[b])
                    return [z3.Extract(0, 0, v[b]) == 1, v[b] > 0, z3.Or(v[j] == 1, v[j] == -1, z3.And(v[j] == 0, v[b] == 1)),
                            J(ex.ghosts['n'], ex.ghosts['m']) == z3.If(v[j] == 1, x, z3.If(v[j] == 0, 0, -x))]
                out.append(Cand('sign * (n/m) is the symbol asked', g, tag=(j, a, b), needs=(('one', b),)))
        return out
    return f


def once(ax):
    """the law is not applied again to the application it introduced"""
    made = set()

    def h(app):
        if app.get_id() in made:
            return []
        r = ax(app)
        keep.append((app, r))
        for f in r:
            st = [f]
            while st:
                t = st.pop()
                if z3.is_app(t):
                    if t.decl().eq(app.decl()) and not t.eq(app):
                        made.add(t.get_id())
                    st += t.children()
        return r
    return h


keep = []


def wpow_law(w):
    P = fun('wpow%d' % w, w, w, w)

    def ax(app):
        b, e = app.children()
        sq = P(b * b, z3.LShR(e, 1))
        return [z3.Implies(e == 0, app == 1), z3.Implies(e != 0, app == z3.If(z3.Extract(0, 0, e) == 1, b * sq, sq))]
    return ax


def gcd_law(w):
    G = fun('gcd%d' % w, w, w, w)

    def ax(app):
        a, b = app.children()
        return [z3.Implies(b == 0, app == a), z3.Implies(a == 0, app == b), z3.Implies(b != 0, app == G(b, z3.URem(a, b)))]
    return ax


SUBST = [(re.compile(r'^qdv_%s_%d$' % (k, w)), spec(k, w)) for k in ('pow', 'wpow', 'gcd', 'jacobi') for t, w in W]


def spec_sqrt(w):
    """the root of one number is one number: the contract is opened once"""
    to = redirect('spec_sqrt_%d' % w)

    def h(ex, args, i):
        k = ('sqrt', args[0] if isinstance(args[0], int) else args[0].get_id())
        memo = ex.stats.setdefault('roots', {})
        if k not in memo:
            memo[k] = to(ex, args, i)
        return memo[k]
    return h


def substitutions(name, cfg):
    if name.startswith('prime'):
        w = int(name.split('_')[1])
        ty = {32: 'int', 64: 'long'}[w]
        return SUBST + [(re.compile(r'arith::sqrt<unsigned %s>\(|^spec_sqrt_%d$' % (ty, w)), spec_sqrt(w))]
    return SUBST


# ------------------------------------------------------------------ templates
def distinct(vs, n, w=None):
    return [p for p in itertools.permutations(range(len(vs)), n) if len({vs[i].w for i in p}) == 1 and (w is None or vs[p[0]].w == w)]


def roles(ex, vs, w):
    """(result, base, exponent): the exponent starts from e alone, the base from b but not from e"""
    b, e = ex.ghosts['b'].get_id(), ex.ghosts['e'].get_id()
    ini = [consts_of(v.init) for v in vs]
    return [p for p in distinct(vs, 3, w) if e in ini[p[2]] and b not in ini[p[2]] and b in ini[p[1]] and e not in ini[p[1]]]


def sqrt_template(ex, vs, K):
    n = ex.ghosts['n']
    out = []
    if len(vs) == 1:
        w = vs[0].w
        B = w // 2
        nn = zext(n.size(), w, n) if w > n.size() else n

        def g(v, k):
            p = v[0]
            opts = [p == 0] + [p == 1 << (2 * i) for i in range(B)]
            return [z3.Or(*opts), z3.Implies(p == 0, nn == 0)] + [z3.Implies(p == 1 << (2 * i), z3.LShR(nn, 2 * i + 2) == 0) for i in range(n.size() // 2 - 1)]
        return [Cand('place is a power of 4 above a quarter of n', g)]
    for perm in distinct(vs, 3):
        a, b, c = perm
        w = vs[a].w
        if not (z3.is_bv_value(z3.simplify(vs[c].init)) and z3.simplify(vs[c].init).as_long() == 0) or z3.is_bv_value(z3.simplify(vs[b].init)) or vs[a].init.eq(vs[b].init):
            continue
        N = n.size()
        B = N // 2
        nn = zext(N, w, n) if w > N else n
        P = lambda i: z3.BitVecVal(0 if i < 0 else 1 << (2 * i), w)
        out.append(Cand('place is a power of 4', lambda v, k, b=b: [z3.Or(*[v[b] == P(i) for i in range(-1, B)])], tag=(perm, 'p'), needs=()))
        out.append(Cand('place is not zero', lambda v, k, b=b: [v[b] != 0], tag=(perm, 'nz'), needs=()))
        for i in range(-1, B):
            s = 2 * (i + 1)

            def lin(v, k, i=i, s=s, a=a, b=b, c=c):
                x, p, r = v[a], v[b], v[c]
                if s >= N:
                    return [z3.Implies(p == P(i), z3.And(r == 0, x == nn))]
                q = z3.LShR(r, s)
                return [z3.Implies(p == P(i), z3.And(r == q << s, z3.ULT(q, 1 << (B - 1 - i)), z3.ULE(z3.LShR(x, s), 2 * q)))]
            out.append(Cand('rest at most twice the root, scale %d' % s, lin, tag=(perm, 'l%d' % i), needs=((perm, 'p'), (perm, 'nz'), (perm, 'l%d' % (i + 1)))))
            if s >= N:
                continue

            def sq(v, k, i=i, s=s, a=a, b=b, c=c):
                q = z3.LShR(v[c], s)
                return [z3.Implies(v[b] == P(i), nn == v[a] + ((q * q) << s))]

            def step(cur, nxt, prove, i=i, s=s, a=a, b=b, c=c):
                """q' = 2q + bit and rest' = rest - bit*(4q + 1)*4^i; the squares then agree"""
                x, p, r = cur[a], cur[b], cur[c]
                here = nxt[b] == P(i)
                if not prove([here], p == P(i + 1)):
                    return False
                q = z3.LShR(r, s + 2) if s + 2 < N else z3.BitVecVal(0, w)
                q2 = z3.LShR(nxt[c], s)
                h = [here, p == P(i + 1)]
                if not prove(h, z3.Or(q2 == 2 * q, q2 == 2 * q + 1)):
                    return False
                Q, X = z3.BitVec('Q', w), z3.BitVec('X', w)
                for bit in (0, 1):
                    d = (((4 * Q) + 1) << s) if bit else z3.BitVecVal(0, w)
                    if not prove(h + [q2 == 2 * q + bit], nxt[a] == x - z3.substitute(d, (Q, q))):
                        return False
                    one = ((2 * Q + bit) * (2 * Q + bit)) * (1 << s) + X - (4 * Q + 1) * (1 << s) * bit - (X + Q * Q * (1 << (s + 2)))
                    z = z3.simplify(one, som=True)
                    if not (z3.is_bv_value(z) and z.as_long() == 0):
                        return False
                return True
            out.append(Cand('n = rest + root^2, scale %d' % s, sq, step=step, tag=(perm, 's%d' % i), needs=((perm, 'p'), (perm, 'nz'), (perm, 'l%d' % (i + 1)), (perm, 's%d' % (i + 1)))))
    return out


def exp_mod_template(w):
    def f(ex, vs, K):
        if 'm' not in ex.ghosts:
            return []
        m = ex.ghosts['m']
        P = POW(w)
        ex.axioms['pow%d' % w] = once(pow_law(w))
        out = []
        b0, e0 = bv(urem(w, ex.ghosts['b'], m), w), ex.ghosts['e']
        M = lambda a, b: bv(mm(w, a, b, m), w)
        for a, b, c in roles(ex, vs, w):
            def g(v, k, a=a, b=b, c=c):
                r, x, e = v[a], v[b], v[c]
                return [z3.ULT(r, m), z3.ULT(x, m), M(r, P(x, e, m)) == P(b0, e0, m)]

            def lem(cur, nxt, a=a, b=b, c=c):
                r, x, e = cur[a], cur[b], cur[c]
                p = P(M(x, x), z3.LShR(e, 1), m)
                return [M(M(r, x), p) == M(r, M(x, p)), M(1, p) == p, M(1, P(x, e, m)) == P(x, e, m)]
            out.append(Cand('result * base^exponent is constant modulo m', g, lemmas=lem))
        return out
    return f


def exp_template(w):
    def f(ex, vs, K):
        P = fun('wpow%d' % w, w, w, w)
        ex.axioms['wpow%d' % w] = once(wpow_law(w))
        out = []
        for a, b, c in roles(ex, vs, w):
            # the bit of the exponent at the head is yet to come, or has been dealt with
            for ahead in (False, True):
                def g(v, k, a=a, b=b, c=c, ahead=ahead):
                    x, e = (v[b] * v[b], z3.LShR(v[c], 1)) if ahead else (v[b], v[c])
                    return [v[a] * P(x, e) == P(ex.ghosts['b'], ex.ghosts['e'])]

                def lem(cur, nxt, a=a, b=b, c=c, ahead=ahead):
                    r, x, e = cur[a], cur[b], cur[c]
                    if ahead:
                        x, e = x * x, z3.LShR(e, 1)
                    p = P(x * x, z3.LShR(e, 1))
                    return [(r * x) * p == r * (x * p)]
                out.append(Cand('result * base^exponent is constant', g, lemmas=lem))
        return out
    return f


def gcd_template(w):
    def f(ex, vs, K):
        G = fun('gcd%d' % w, w, w, w)
        ex.axioms['gcd%d' % w] = once(gcd_law(w))
        return [Cand('the common divisors stay the same', lambda v, k, a=a, b=b: [G(v[a], v[b]) == G(ex.ghosts['a'], ex.ghosts['b']), v[b] != 0])
                for a, b in distinct(vs, 2, w)]
    return f


def egcd_template(ex, vs, K):
    """r = s*a + t*b for both rows, and the determinant of the rows is 1 or -1"""
    out = []
    A, B = ex.ghosts['a'], ex.ghosts['b']
    num = lambda t: t.as_long() if z3.is_bv_value(t) else None
    ini = [z3.simplify(v.init) for v in vs]
    w = A.size()
    ex.axioms['alternating!%d' % w] = alternating_law
    out += [Cand('not zero', lambda v, k, a=a: [v[a] != 0]) for a in range(len(vs))]
    rows = []
    for x, y, z in distinct(vs, 3, w):
        d = som(ini[x] - ini[y] * A - ini[z] * B)
        if z3.is_bv_value(d) and d.as_long() == 0:
            rows.append((x, y, z))
    for p in rows:
        for q in rows:
            if p < q and not set(p) & set(q):
                out.append(Cand('each remainder is the combination of the inputs by its coefficients',
                                poly=lambda v, k, p=p, q=q: [(v[x], v[y] * A + v[z] * B) for x, y, z in (p, q)]))
    for s, t, u, v_ in distinct(vs, 4, w):
        if s > v_ or t > u:
            continue
        d0 = som(ini[s] * ini[v_] - ini[t] * ini[u])
        for one in (z3.BitVecVal(1, w), A, B):
            for sg in (1, -1):
                if som(d0 - sg * one).eq(z3.BitVecVal(0, w)):
                    out.append(Cand('the determinant of two columns is 1, a or b up to sign',
                                    poly=lambda v, k, q=(s, t, u, v_), one=one, sg=sg: [(v[q[0]] * v[q[3]] - v[q[1]] * v[q[2]], sg * alternating(w)(one, k))]))
    return out


def shift_template(ex, vs, K):
    out = []
    for a in range(len(vs)):
        w = vs[a].w
        kk = lambda k: bv(trunc(64, w, k), w) if w < 64 else k
        out += [Cand('halved at every iteration', lambda v, k, a=a: [v[a] == z3.LShR(vs[a].init, kk(k)), z3.ULT(k, w)]),
                Cand('positive', lambda v, k, a=a: [v[a] >= 1]),
                Cand('above one', lambda v, k, a=a: [v[a] >= 2])]
    return out


def invariants(name, cfg):
    inv = [(re.compile(r'arith::sqrt<'), sqrt_template), (re.compile(r'arith::(log2|ceil2)<|contract_powers2|c_powers2'), shift_template)]
    m = re.match(r'exp_mod_(\d+)', name)
    if m:
        inv.append((re.compile('arith::exp_mod<|contract_exp_mod'), exp_mod_template(int(m.group(1)))))
    m = re.match(r'exp_(\d+)', name)
    if m:
        inv.append((re.compile('arith::exp<|contract_exp_'), exp_template(int(m.group(1)))))
    m = re.match(r'gcd_(\d+)', name)
    if m:
        inv.append((re.compile('arith::gcd<|contract_gcd_'), gcd_template(int(m.group(1)))))
    m = re.match(r'jacobi_(\d+)', name)
    if m:
        inv.append((re.compile('arith::jacobi<|contract_jacobi_'), jacobi_template(2 * int(m.group(1)))))
    if name.startswith('egcd'):
        inv.append((re.compile('arith::extended_gcd<|c_egcd<'), egcd_template))
    if name.startswith('sqrt'):
        inv.append((re.compile('contract_sqrt|c_sqrt<'), sqrt_template))
    return inv
