"""Discharging obligations."""
import subprocess
import time
import z3
from .val import *

HARD = {z3.Z3_OP_BUREM: 'urem', z3.Z3_OP_BUREM_I: 'urem', z3.Z3_OP_BUDIV: 'udiv', z3.Z3_OP_BUDIV_I: 'udiv',
        z3.Z3_OP_BSREM: 'srem', z3.Z3_OP_BSREM_I: 'srem', z3.Z3_OP_BSDIV: 'sdiv', z3.Z3_OP_BSDIV_I: 'sdiv', z3.Z3_OP_BMUL: 'mul'}


class Abstract:
    """replaces multiplications of two symbolic factors and divisions by uninterpreted
    functions (sound for validity)"""

    def __init__(self):
        self.memo, self.extra, self.keep = {}, [], []
        self.used = False

    def __call__(self, t):
        memo = self.memo
        st = [t]
        while st:
            x = st[-1]
            k = x.get_id()
            if k in memo:
                st.pop()
                continue
            if not z3.is_app(x):
                memo[k] = x
                self.keep.append(x)
                st.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            nch = [memo[c.get_id()] for c in ch]
            memo[k] = self.make(x, ch, nch)
            self.keep.append(x)
        return memo[t.get_id()]

    def make(self, x, ch, nch):
        d = x.decl().kind()
        n = HARD.get(d)
        if n and len(nch) >= 2:
            w = x.size()
            nv = [c for c in nch if not z3.is_bv_value(c)]
            if n == 'mul':
                if len(nv) > 1:
                    self.used = True
                    f = z3.Function('h_mul_%d' % w, z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
                    a = sorted(nv, key=lambda t: t.get_id())
                    r = a[0]
                    for b in a[1:]:
                        self.extra += [f(r, b) == f(b, r), z3.Implies(z3.Or(r == 0, b == 0), f(r, b) == 0), z3.Implies(r == 1, f(r, b) == b), z3.Implies(b == 1, f(r, b) == r)]
                        r = f(r, b)
                    for c in nch:
                        if z3.is_bv_value(c):
                            r = r * c
                    self.keep.append(r)
                    return r
            elif not z3.is_bv_value(nch[1]) or w >= 17 and log2(nch[1].as_long()) is None:
                self.used = True
                f = z3.Function('h_%s_%d' % (n, w), z3.BitVecSort(w), z3.BitVecSort(w), z3.BitVecSort(w))
                r = f(nch[0], nch[1])
                if n == 'urem':
                    self.extra.append(z3.Implies(nch[1] != 0, z3.ULT(r, nch[1])))
                    self.extra.append(z3.Implies(z3.ULT(nch[0], nch[1]), r == nch[0]))
                    self.extra.append(z3.ULE(r, nch[0]))
                if n == 'udiv':
                    self.extra.append(z3.Implies(nch[1] != 0, z3.ULE(r, nch[0])))
                    self.extra.append(z3.Implies(z3.And(nch[1] != 0, z3.ULT(nch[0], nch[1])), r == 0))
                self.keep.append(r)
                return r
        if all(a is b or a.eq(b) for a, b in zip(ch, nch)):
            return x
        return rebuild(x, nch)


def rebuild(x, nch):
    d = x.decl()
    k = d.kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*nch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*nch)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*nch)
    if k == z3.Z3_OP_CONCAT:
        return z3.Concat(*nch)
    if k == z3.Z3_OP_BADD and len(nch) > 2 or k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR, z3.Z3_OP_BMUL) and len(nch) > 2:
        op = {z3.Z3_OP_BADD: lambda a, b: a + b, z3.Z3_OP_BAND: lambda a, b: a & b, z3.Z3_OP_BOR: lambda a, b: a | b,
              z3.Z3_OP_BXOR: lambda a, b: a ^ b, z3.Z3_OP_BMUL: lambda a, b: a * b}[k]
        r = nch[0]
        for c in nch[1:]:
            r = op(r, c)
        return r
    return d(*nch)


def syms(t, cache):
    k = t.get_id()
    r = cache.get(k)
    if r is not None:
        return r[1]
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    cache[k] = (t, out)
    return out


def slice_(facts, goal, cache):
    """the facts that share symbols with the goal, transitively"""
    want = set(syms(goal, cache))
    rest = [(f, syms(f, cache)) for f in facts]
    out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for f, s in rest:
            if s & want or not s:
                out.append(f)
                if not s <= want:
                    want |= s
                    ch = True
            else:
                nr.append((f, s))
        rest = nr
    return out


EASY = {}


def easy(t):
    """no multiplication of symbols and no division"""
    k = t.get_id()
    r = EASY.get(k)
    if r is not None:
        return r[1]
    ok, seen, st = True, set(), [t]
    while st and ok:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if not z3.is_app(x):
            ok = False
            break
        d = x.decl().kind()
        if d in HARD and sum(1 for c in x.children() if not z3.is_bv_value(c)) > (1 if d == z3.Z3_OP_BMUL else 0):
            ok = False
        st.extend(x.children())
    EASY[k] = (t, ok)
    return ok


def slice_easy(facts, goal, cache):
    fs = [f for f in facts if easy(f)]
    want = set(syms(goal, cache))
    rest = [(f, syms(f, cache)) for f in fs]
    out = []
    for _ in range(2):
        nr = []
        add = set()
        for f, s in rest:
            if s & want:
                out.append(f)
                add |= s
            else:
                nr.append((f, s))
        want |= add
        rest = nr
    return out


def near(facts, goal, cache):
    """only the facts all of whose symbols occur in the goal"""
    want = syms(goal, cache)
    return [f for f in facts if syms(f, cache) <= want]


def discharge(ex, ob, timeout, cache):
    """('unsat'|'sat'|'unknown', stage, seconds, model)"""
    t0 = time.time()
    if ob.kind == 'ring' and ob.goal is True:
        return 'unsat', 'ring normal form', 0.0, None
    goal = zb(ob.goal)
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'unsat', 'simplifier', time.time() - t0, None
    allf = ex.facts[:ob.nf]
    facts = slice_(allf, goal, cache)
    quant = [f for f in facts if z3.is_quantifier(f)]
    if quant:
        facts = [f for f in facts if not z3.is_quantifier(f)] + ghost_instances(ex, quant, [goal] + facts)

    def go(fs, gl, ab, ms, fold=False):
        if fold and getattr(ex, 'fold_axioms', None):
            sv = ex.axioms
            ex.axioms = dict(sv)
            ex.axioms.update(ex.fold_axioms)
            hyp = fs + ex.instances(fs + [gl], rounds=2)
            ex.axioms = sv
        else:
            hyp = fs + ex.instances(fs + [gl], rounds=3)
        neg = z3.Not(gl)
        if ab is not None:
            hyp = [h if z3.is_quantifier(h) else ab(h) for h in hyp]
            neg = ab(neg)
            hyp += ab.extra
            if not ab.used:
                pass
        s = z3.SolverFor('QF_UFBV') if not any(z3.is_quantifier(h) for h in hyp) else z3.Solver()
        s.set('timeout', int(ms))
        for h in hyp:
            s.add(h)
        s.add(neg)
        r = s.check()
        return r, s
    nr = near(facts, goal, cache)
    plan = [(nr, True, 0.15), (facts, True, 0.3), (nr, False, 0.3), (facts, False, 1.0)]
    last = None
    for k, (fs, ab, frac) in enumerate(plan):
        if k == 3 and as_integers(ex, facts, goal, min(20, timeout)):
            return 'unsat', 'cvc5 (integers)', time.time() - t0, None
        if len(fs) == len(nr) and fs is facts and False:
            continue
        a = Abstract() if ab else None
        r, s = go(fs, goal, a, max(1000, timeout * 1000 * frac))
        if r == z3.unsat:
            return 'unsat', 'z3 (arithmetic abstracted)' if ab and a.used else 'z3', time.time() - t0, None
        if r == z3.sat and fs is facts and not (ab and a.used):
            last = s
            break
    if quant:
        r, s = go(facts + quant, goal, Abstract(), timeout * 300)
        if r == z3.unsat:
            return 'unsat', 'z3 (quantifiers)', time.time() - t0, None
        last = None
    if getattr(ex, 'fold_axioms', None):
        r, s = go(facts, goal, Abstract(), timeout * 300, fold=True)
        if r == z3.unsat:
            return 'unsat', 'z3 (with one step of the recurrences)', time.time() - t0, None
    if last is not None:
        try:
            m = last.model()
        except z3.Z3Exception:
            m = None
        return 'sat', 'z3', time.time() - t0, m
    return 'unknown', 'z3', time.time() - t0, None


def as_integers(ex, facts, goal, secs):
    """the same query with machine integers translated to mathematical ones (exactly: cvc5 keeps the
    wrap-around); a second opinion for long sums"""
    s = z3.Solver()
    for h in facts + ex.instances(facts + [goal], rounds=3):
        s.add(h)
    s.add(z3.Not(goal))
    text = s.to_smt2()
    if len(text) > 200000:
        return False
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--solve-bv-as-int=sum', '-'], input='(set-logic ALL)\n' + text, text=True, capture_output=True, timeout=secs)
    except (subprocess.TimeoutExpired, OSError):
        return False
    return r.stdout.strip().startswith('unsat')


def constants(t):
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.num_args():
            st += x.children()
        elif x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
    return out


def ghost_instances(ex, quant, terms):
    """instances of the facts about all iterations at the contract's ghost values"""
    out = []
    ks = {}
    for t in terms:
        if not z3.is_quantifier(t):
            for c in constants(t):
                if c.decl().name().startswith('K!'):
                    ks[c.get_id()] = c
    ks = list(ks.values())
    for x in list(getattr(ex, 'ghosts', {}).values()) + ks[:6]:
        if not z3.is_bv(x) or x.size() > 64:
            continue
        w = z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x
        for d in (0, 1, 2):
            for q in quant:
                if q.num_vars() == 1 and q.var_sort(0) == z3.BitVecSort(64):
                    out.append(z3.simplify(z3.substitute_vars(q.body(), w - d if d else w)))
    return out


def satisfiable(ex, g):
    """the precondition (all facts) and the guard can hold: False only when refuted"""
    facts = [zb(f) for f in ex.facts if not z3.is_quantifier(f)] + [zb(c) for c in g]
    ab = Abstract()
    s = z3.SolverFor('QF_UFBV')
    s.set('timeout', 8000)
    for f in facts:
        s.add(ab(f))
    for f in ab.extra:
        s.add(f)
    return s.check() != z3.unsat


def inputs(ex, ob, model):
    return None


def prove_local(ex, hyp, goal, secs):
    """hyp implies goal (True only when proved)"""
    facts = slice_(hyp, goal, {})
    facts = facts + ex.instances(facts + [goal], rounds=2)
    for ab in (True, False):
        a = Abstract() if ab else None
        hs, n = (list(map(a, facts)), a(z3.Not(goal))) if ab else (facts, z3.Not(goal))
        s = z3.SolverFor('QF_UFBV')
        s.set('rlimit', int(secs * 6000000 * (0.4 if ab else 1)))    # not seconds: the outcome must not depend on the load
        s.set('timeout', int(secs * 8000))
        for h in hs + (a.extra if ab else []):
            s.add(h)
        s.add(n)
        r = s.check()
        if r == z3.unsat:
            return True
        if r == z3.sat and not (ab and a.used):
            return False
    return as_integers(ex, facts, goal, 3 * secs)
