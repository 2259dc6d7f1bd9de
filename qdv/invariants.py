"""Loop invariants: candidates written over the values a loop carries (whatever their names and
order), of which the largest inductive set is kept.  What is kept is proved: it holds on entry and
every iteration preserves it.  A candidate that does not hold is dropped, and the obligations that
needed it then fail."""
import time
import z3
from .val import *


class View:
    """one value carried by the loop: initial value, value at the head, value at the back edge"""

    def __init__(self, w, init, cur, nxt):
        self.w, self.init, self.cur, self.nxt = w, init, cur, nxt


class Cand:
    """`goals(val)`: formulas over the carried values (val[i] for view i); or an equation
    `poly(val) = (lhs, rhs)` decided by polynomial normal form.  `lemmas(cur, nxt)`: facts that may
    be used to show that it is preserved."""

    def __init__(self, label, goals=None, poly=None, lemmas=None, use=(), step=None, tag=None, needs=None):
        # use None: every live candidate is a hypothesis; needs(j): labels of the hypotheses for formula j
        self.step, self.tag, self.needs = step, tag, needs
        self.label, self.goals, self.poly, self.lemmas, self.use = label, goals, poly, lemmas, use


def som(t):
    return z3.simplify(t, som=True, flat=True)


def formulas(c, val, k):
    if c.poly:
        return [l == r for l, r in c.poly(val, k)]
    return [zb(x) for x in c.goals(val, k)]


def byname(live, cur, k, c):
    """the hypotheses of a candidate: itself and the ones it names"""
    return [f for d in live if d is c or (c.tag is not None and d.tag in c.needs) for f in formulas(d, cur, k)]


def alternating(w):
    """x, -x, x, -x, ..."""
    return z3.Function('alternating!%d' % w, z3.BitVecSort(w), z3.BitVecSort(64), z3.BitVecSort(w))


def alternating_law(app):
    x, k = app.children()
    return [app == z3.If(z3.Extract(0, 0, k) == 0, x, -x)]


def apps(t):
    out, st = [], [t]
    while st:
        x = st.pop()
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            st += x.children()
    return out


def polynomial(now, then, K):
    """the equations at the head (variable = polynomial) imply the ones at the back edge, by normal form"""
    ren = [(l, r) for l, r in now if z3.is_const(l) and l.decl().kind() == z3.Z3_OP_UNINTERPRETED and l.get_id() not in consts_of(r)]
    ren += [(a, -alternating(a.size())(a.arg(0), K)) for p in then for a in apps(p[1]) if a.decl().name().startswith('alternating!')]
    for l, r in then:
        d = som(z3.substitute(l - r, *ren) if ren else l - r)
        if not (z3.is_bv_value(d) and d.as_long() == 0):
            # one of the equations, as it is
            ok = False
            for a, b in now:
                for sgn in (1, -1):
                    e = som(z3.substitute((l - r) - sgn * (a - b), *ren) if ren else (l - r) - sgn * (a - b))
                    ok = ok or z3.is_bv_value(e) and e.as_long() == 0
            if not ok:
                return False
    return True


def infer(ex, fr, pairs, sols, K, g0, gl):
    name = ex.dem(fr.f.name)
    fns = [f for rx, f in ex.invariants if rx.search(name)]
    if not fns:
        return []
    sg, ex.g = ex.g, g0
    if gl is None:
        return []
    vs = []
    for x, v in pairs:
        if x.kind not in ('int', 'bool') or isinstance(v, (Ptr, PIte)) or x.kind == 'bool':
            continue
        cur = x.ph if x.sol is None else x.sol
        if not isinstance(cur, (int, z3.ExprRef)):
            continue
        nxt = subst(v, sols)
        if not isinstance(nxt, (int, z3.ExprRef)):
            continue
        init = x.init
        vs.append((x, View(x.w, bv(init, x.w), bv(cur, x.w), bv(nxt, x.w))))
    views = [v for x, v in vs]
    cont = [zb(subst(c, sols)) for c in (gl or ())] + [zb(c) for c in g0]
    t0 = time.time()
    live = []
    for f in fns:
        for c in f(ex, views, K) or []:
            live.append(c)
    INIT = [v.init for v in views]
    CUR = [v.cur for v in views]
    NXT = [v.nxt for v in views]
    zero = z3.BitVecVal(0, 64)
    K1 = K + 1
    hold = []
    proposed = {c.tag for c in live if c.tag is not None}
    for c in live:
        if c.tag is not None and any(t in proposed and all(d.tag != t for d in hold) for t in c.needs[:1]):
            continue
        if all(proves(ex, [zb(x) for x in g0], f) for f in formulas(c, INIT, zero)):
            hold.append(c)
    dropped = [c for c in live if c not in hold]
    live = hold
    proved = {}
    while True:
        keep = []
        for c in live:
            key = (id(c), tuple(id(d) for d in live if d is c or (c.tag is not None and d.tag in c.needs)))
            if not c.poly and key in proved:
                if proved[key]:
                    keep.append(c)
                continue
            ok = False
            if c.poly:
                ok = polynomial(c.poly(CUR, K), c.poly(NXT, K1), K)
            elif c.step:
                ok = c.step(CUR, NXT, lambda h, g: proves(ex, cont + byname(live, CUR, K, c) + h, g))
            else:
                lem = [zb(x) for x in (c.lemmas(CUR, NXT) if c.lemmas else [])]
                ok = all(proves(ex, cont + byname(live, CUR, K, c) + lem, f) for f in formulas(c, NXT, K1))
            proved[key] = ok
            if ok:
                keep.append(c)
        if len(keep) == len(live):
            break
        dropped += [c for c in live if c not in keep]
        live = keep
    # what also holds after the last iteration
    last = []
    for c in live:
        lem = [zb(x) for x in (c.lemmas(CUR, NXT) if c.lemmas else [])]
        hyp = [zb(x) for x in g0] + byname(live, CUR, K, c)
        for j, f in enumerate(formulas(c, NXT, K1)):
            if c.poly or (c.step(CUR, NXT, lambda h, g: proves(ex, hyp + h, g)) if c.step else proves(ex, hyp + lem, f)):
                last.append((c, j))
    ex.g = sg
    if ex.opts.get('trace'):
        print([(z3.simplify(v.init), v.cur, z3.simplify(v.nxt)) for v in views])
        print(name[:60], len(fns), 'kept', len(live), 'last', len(last), round(time.time() - t0, 1), [c.label for c in dropped][:20], [(c.label, j) for c in live for j in range(len(formulas(c, NXT, K1))) if (c, j) not in last][:10])
    idx = [x for x, v in vs]
    for c in live:
        ex.invariants_found.append((name, c.label, round(time.time() - t0, 2)))

    def at(sol):
        cur = [bv(sol(x), x.w) for x in idx]
        nxt = [bv(subst(v.nxt, [(x.ph, sol(x)) for x, _ in vs]), x.w) for x, v in vs]
        return [f for c in live for f in formulas(c, cur, K)], [formulas(c, nxt, K1)[j] for c, j in last]
    return [at] if live else []


def proves(ex, hyp, goal):
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return False
    from . import solve, sx
    base = [f for f in ex.facts if not z3.is_quantifier(f)]
    ob = sx.Ob('inv', 0, goal, 'invariant', '')
    return solve.prove_local(ex, base + hyp, goal, ex.opts.get('inv_s', 6))
