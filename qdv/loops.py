"""Summaries of loops with a symbolic number of iterations."""
import z3
from . import ir
from .val import *
from .mem import *
from .sx import *

M64 = mask(64)


class Var:
    """a value carried around the loop: a phi (lane) or a memory cell"""

    def __init__(self, kind, key, init, w):
        self.kind, self.key, self.init, self.w = kind, key, init, w
        self.ph = None      # placeholder constant
        self.sol = None


def summarise(ex, fr, L, g0, phi0):
    K = z3.BitVec('K!%d' % next_id(ex), 64)
    ex.binders.append(K)
    logs = (ex.mem.wlog, ex.mem.rlog)
    nw = (len(logs[0]), len(logs[1])) if logs[0] is not None else None
    try:
        exits, sinks = summarise1(ex, fr, L, g0, phi0, K)
    finally:
        ex.binders.pop()
        w, r = ex.mem.wlog, ex.mem.rlog
        ex.mem.wlog, ex.mem.rlog = logs
    # effects on the enclosing loop's logs
    if logs[0] is not None:
        logs[0].extend(sinks[0])
        logs[1].extend(sinks[1])
    for s, rec in exits:
        fr.edges.setdefault(s, []).append(rec)


def next_id(ex):
    ex.loop_n = getattr(ex, 'loop_n', 0) + 1
    return ex.loop_n


def make_vars(ex, fr, L, phi0):
    vs = []
    for i in fr.f.phis[L.header]:
        v = phi0[i.res]
        if isinstance(v, Undef):
            v = ex.defv(v, i.ty)
        vs.append((i, v))
    return vs


def placeholder(ex, v, ty, name, out):
    """a value of the shape of v made of placeholders; out: list of (Var)"""
    n = '%s!%d' % (name, next_id(ex))
    if isinstance(v, Ptr):
        x = Var('off', n, v.off, 64)
        x.ph = z3.BitVec(n, 64)
        x.ptr = v
        out.append(x)
        return Ptr(v.reg, x.ph, v.idx), ('ptr', x, v)
    if isinstance(v, PIte):
        return v, ('fixed', v)
    if isinstance(v, Vec):
        es, sh = [], []
        for e in v.e:
            p, s = placeholder(ex, e, ('i', v.w) if v.w > 0 else ('i', 1), name, out)
            es.append(p)
            sh.append(s)
        return Vec(es, v.w), ('vec', sh, v.w)
    if isinstance(v, tuple):
        raise Unsupported('aggregate carried by a loop')
    if isinstance(v, bool) or (isinstance(v, z3.ExprRef) and z3.is_bool(v)):
        x = Var('bool', n, v, 0)
        x.ph = z3.Bool(n)
        out.append(x)
        return x.ph, ('int', x)
    if isinstance(v, float):
        raise Unsupported('float carried by a loop')
    w = v.size() if isinstance(v, z3.ExprRef) else ty[1]
    x = Var('int', n, v, w)
    x.ph = z3.BitVec(n, w)
    out.append(x)
    return x.ph, ('int', x)


def leaves(sh, v):
    """pairs (Var, value at the back edge)"""
    k = sh[0]
    if k == 'int':
        if isinstance(v, (Ptr, PIte)):
            raise Unsupported('pointer in an integer carried by a loop')
        return [(sh[1], v)]
    if k == 'ptr':
        if isinstance(v, Ptr) and v.reg is sh[2].reg and ((v.idx is None) == (sh[2].idx is None)) and (v.idx is None or same(v.idx, sh[2].idx)):
            return [(sh[1], v.off)]
        return [(sh[1], v)]
    if k == 'vec':
        r = []
        for s, e in zip(sh[1], v.e):
            r += leaves(s, e)
        return r
    if k == 'fixed':
        if not same(v, sh[1]):
            raise Unsupported('choice of pointers carried by a loop')
        return []
    raise Unsupported('carried value')


def build(sh):
    k = sh[0]
    if k == 'int':
        return sh[1].ph if sh[1].sol is None else sh[1].sol
    if k == 'ptr':
        s = sh[1].ph if sh[1].sol is None else sh[1].sol
        return s if isinstance(s, (Ptr, PIte)) else Ptr(sh[2].reg, s, sh[2].idx)
    if k == 'vec':
        return Vec([build(s) for s in sh[1]], sh[2])
    return sh[1]


def summarise1(ex, fr, L, g0, phi0, K):
    vars_, shapes, ph_phi = [], {}, {}
    for i in fr.f.phis[L.header]:
        v = phi0[i.res]
        if isinstance(v, Undef):
            v = ex.defv(v, i.ty)
        p, sh = placeholder(ex, v, i.ty, 'ph', vars_)
        ph_phi[i.res] = p
        shapes[i.res] = sh
    if '__exc' in phi0:
        ph_phi['__exc'] = phi0['__exc']
    cells = {}   # (reg, off, n) -> (placeholder, shape, init)
    phs = {}
    mk = ex.mark(fr)
    rc = mk[7]
    ex.fact(z3.ULT(K, 1 << 60))
    base_facts = len(ex.facts)
    try:
        # trial runs until the set of carried cells is known
        for attempt in range(12):
            set_cells(ex, cells, lambda c: c[0])
            ex.mem.wlog, ex.mem.rlog = [], []
            ex.trial += 1
            try:
                latch = ex.body(fr, L, g0, ph_phi)
            finally:
                ex.trial -= 1
            new = carried_cells(ex, mk, cells, rc)
            if not new:
                break
            rollback(ex, fr, mk, K)
            for key in new:
                reg, off, n = key
                sg, ex.g = ex.g, g0
                init = ex.mem.rd(reg, reg.layers, len(reg.layers), None, off, n, False)
                ex.g = sg
                if isinstance(init, Undef):
                    cells[key] = (UNDEF, ('undef',), init)
                    continue
                p, sh = placeholder(ex, init, ('i', 8 * n), 'cell', vars_)
                cells[key] = (p, sh, init)
        else:
            raise Unsupported('cells carried by the loop keep changing')
        g, pairs = latch_values(ex, fr, L, latch, shapes, cells)
        if ex.unknown and any(k in ex.unknown for x, v in pairs for k in consts_of(v) if not isinstance(v, (Ptr, PIte))):
            presolve(ex, pairs, K)
            rollback(ex, fr, mk, K)
            set_cells(ex, cells, None, {key: (UNDEF if sh[0] == 'undef' else build(sh)) for key, (p, sh, init) in cells.items()})
            ph2 = {r: build(sh) for r, sh in shapes.items()}
            if '__exc' in phi0:
                ph2['__exc'] = phi0['__exc']
            ex.mem.wlog, ex.mem.rlog = [], []
            latch = ex.body(fr, L, g0, ph2)
            if carried_cells(ex, mk, cells, rc):
                raise Unsupported('cells carried by the loop keep changing')
            g, pairs = latch_values(ex, fr, L, latch, shapes, cells)
        gl = gminus(g, g0)
        found = classify(ex, fr, pairs, K, phs, g0, gl)
        # second run, with the closed forms
        phi1 = {r: build(sh) for r, sh in shapes.items()}
        if '__exc' in phi0:
            phi1['__exc'] = phi0['__exc']
        cv = {key: (UNDEF if sh[0] == 'undef' else build(sh)) for key, (p, sh, init) in cells.items()}
        rollback(ex, fr, mk, K)
        set_cells(ex, cells, lambda c, cv=cv: None, cv)
        ex.mem.wlog, ex.mem.rlog = [], []
        old = {k: len(v) for k, v in fr.edges.items()}
        nrets, nexc = len(fr.rets), len(fr.exc)
        ex.body(fr, L, g0, phi1)
        exits = exit_recs(ex, fr, L, old, g0)
        T, generic, facts = trip(ex, exits, g0, K, fr, nexc)
        for at in found:
            # the invariants hold at the head of every iteration that is reached
            head, last = at(lambda x: x.sol)
            for f in head:
                f = z3.Implies(zb(gz(g0)), f)
                facts += [f, subst(f, [(K, T)])]
            for f in last:
                facts.append(subst(z3.Implies(zb(gz(g0)), f), [(K, T)]))
        # final run, knowing K <= T
        rollback(ex, fr, mk, K)
        for f in facts:
            ex.fact(f)
        ex.fact(bnot(ult(64, T, K)))
        note_ranges(ex, phi1, cv, K, T)
        set_cells(ex, cells, None, cv)
        ex.mem.wlog, ex.mem.rlog = [], []
        old = {k: len(v) for k, v in fr.edges.items()}
        ex.body(fr, L, g0, phi1)
        exits = exit_recs(ex, fr, L, old, g0)
        wlog, rlog = ex.mem.wlog, ex.mem.rlog
        if len(fr.exc) > nexc and any(g is not None for g, p in fr.exc[nexc:]):
            ne = fr.exc[nexc:]
            del fr.exc[nexc:]
            for g, p in ne:
                if g is not None and ex.feasible(g):
                    raise Unsupported('exception leaving a loop')
        single = len(exits) == 1
        out = []
        for b, s, rec in exits:
            res = gminus(rec.g, g0)
            g = g0 if single else gand(g0, *[subst(c, [(K, T)]) for c in res])
            if g is None:
                continue
            out.append((s, Rec(g, {k: subst(v, [(K, T)]) for k, v in rec.phi.items()}, b)))
        sinks = effects(ex, fr, mk, cells, K, T, wlog, rlog, rc, g0)
    finally:
        ex.drop_mark(mk)
    # the marks below keep what was there before the loop
    return out, sinks


def latch_values(ex, fr, L, latch, shapes, cells):
    if not latch:
        raise Unsupported('loop without a back edge')
    g, lphi = ex.merge(latch)
    pairs = []
    sg, ex.g = ex.g, g
    for i in fr.f.phis[L.header]:
        pairs += leaves(shapes[i.res], ex.defv(lphi[i.res], i.ty) if isinstance(lphi[i.res], Undef) else lphi[i.res])
    for key, (p, sh, init) in cells.items():
        if sh[0] == 'undef':
            continue
        reg, off, n = key
        v = ex.mem.rd(reg, reg.layers, len(reg.layers), None, off, n, False)
        if isinstance(v, Undef):
            v = ex.fresh(8 * n, 'undef') if sh[0] == 'int' else v
        pairs += leaves(sh, under(ex, v))
    ex.g = sg
    return g, pairs


def under(ex, v):
    """a choice that the present guard settles"""
    if isinstance(v, Ptr) and isinstance(v.off, z3.ExprRef):
        return Ptr(v.reg, under(ex, v.off), v.idx)
    while isinstance(v, z3.ExprRef) and z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv(v):
        c = ex.decide(v.arg(0), 400)
        if c is True:
            v = unval(v.arg(1))
        elif c is False:
            v = unval(v.arg(2))
        else:
            break
    return v


def presolve(ex, pairs, K):
    """closed forms of the counters that do not depend on what could not be read yet"""
    bad = {x.ph.get_id() for x, v in pairs}
    bad.add(K.get_id())
    bad |= set(ex.unknown)
    for x, v in pairs:
        if x.kind == 'bool' or isinstance(v, (Ptr, PIte, Undef)):
            continue
        d = sub(x.w, v, x.ph)
        if x.w not in (32, 64) and not isinstance(d, int):
            d = unval(z3.simplify(d))
        if not any(k in bad for k in consts_of(d)):
            x.sol = affine(x.w, x.init, d, K)
            x.step = d


def rollback(ex, fr, mk, K):
    ex.rollback(fr, mk, keep=True)
    ex.fact(z3.ULT(K, 1 << 60))


def set_cells(ex, cells, fn, cv=None):
    log = ex.mem.wlog
    ex.mem.wlog = None
    for key, c in cells.items():
        reg, off, n = key
        v = cv[key] if cv is not None else c[0]
        ex.mem.touch(reg)
        ex.mem.cell_write(reg, True, off, n, v)
    ex.mem.wlog = log


def carried_cells(ex, mk, cells, rc):
    new = []
    for e in ex.mem.wlog:
        if e[1] == 'cell':
            reg, _, off, n, g = e
            if reg.id > rc:
                continue
            v = None
            key = (reg, off, n)
            if isinstance_vec_cells(reg, off, n):
                parts = cell_parts(reg, off, n)
                keys = [(reg, o, w) for o, w in parts]
            else:
                keys = [key]
            for k in keys:
                if k not in cells and k not in new:
                    new.append(k)
    allk = list(cells) + new
    byreg = {}
    for reg, off, n in allk:
        byreg.setdefault(reg, []).append((off, n))
    for reg, l in byreg.items():
        l.sort()
        for (a, n), (b, m) in zip(l, l[1:]):
            if a + n > b:
                raise Unsupported('cell of %s carried by a loop at several widths' % reg.name)
    return new


def isinstance_vec_cells(reg, off, n):
    return n > 8


def cell_parts(reg, off, n):
    top = reg.layers[-1] if reg.layers and isinstance(reg.layers[-1], dict) else {}
    out = []
    o = off
    while o < off + n:
        e = top.get(o)
        if e is None:
            raise Unsupported('wide cell carried by a loop')
        out.append((o, e[0]))
        o += e[0]
    return out


def kw(K, w):
    return K if w == 64 else (z3.Extract(w - 1, 0, K) if w < 64 else z3.ZeroExt(w - 64, K))


def classify(ex, fr, pairs, K, phs, g0, gl):
    phids = {x.ph.get_id(): x for x, v in pairs}
    todo = []
    sols = []
    for x, v in pairs:
        if x.sol is not None:
            sols.append((x.ph, x.sol))
            continue
        if x.kind == 'bool':
            if same(v, x.ph) or same(v, x.init):
                if same(v, x.ph):
                    x.sol = x.init
                    sols.append((x.ph, x.init))
                    continue
            todo.append((x, v))
            continue
        if isinstance(v, (Ptr, PIte)):
            todo.append((x, v))
            continue
        if x.w in (32, 64):
            d = sub(x.w, v, x.ph)
        else:
            d = sub(x.w, v, x.ph)
            if not isinstance(d, int):
                d = unval(z3.simplify(d))
        cs = consts_of(d)
        if not any(k in phids for k in cs) and K.get_id() not in cs:
            x.sol = affine(x.w, x.init, d, K)
            x.step = d
            sols.append((x.ph, x.sol))
        else:
            todo.append((x, v))
    ch = True
    while ch and todo:
        ch = False
        for x, v in list(todo):
            v2 = subst(v, sols) if not isinstance(v, Undef) else v
            cs = consts_of(v2)
            if not any(k in phids for k in cs):
                prev = subst(v2, [(K, sub(64, K, 1))]) if K.get_id() in cs else v2
                init = x.init
                if x.kind == 'off' and isinstance(v2, (Ptr, PIte)):
                    init = x.ptr
                if x.kind == 'int' and isinstance(prev, (Ptr, PIte)):
                    raise Unsupported('carried pointer')
                first = subst(prev, [(K, z3.BitVecVal(0, 64))]) if isinstance(prev, z3.ExprRef) else prev
                first = unval(z3.simplify(first)) if isinstance(first, z3.ExprRef) else first
                flat = isinstance(init, (int, z3.ExprRef)) and same(first, unval(z3.simplify(init)) if isinstance(init, z3.ExprRef) else init)
                x.sol = prev if flat else vite(eq(64, K, 0), init, prev, x.w or None)
                sols.append((x.ph, x.sol))
                todo.remove((x, v))
                ch = True
                break
    found = []
    if todo:
        if ex.invariants:
            from . import invariants
            found = invariants.infer(ex, fr, pairs, sols, K, g0, gl)
        fold(ex, todo, sols, K, phids)
    return found


def affine(w, init, d, K):
    if isinstance(d, int) and d == 0:
        return init
    if w == 64:
        return add(64, init, mul(64, K, d))
    if w == 32 and isinstance(d, int):
        # the counter does not overflow (signed overflow is undefined; see note_ranges)
        k32 = z3.Extract(31, 0, K)
        return add(32, init, mul(32, k32, d))
    return unval(z3.simplify(bv(init, w) + kw(K, w) * bv(d, w)))


def note_ranges(ex, phi1, cv, K, T):
    """32-bit counters: where they do not overflow up to the last iteration, their sign
    extensions are affine in K"""
    k32 = z3.Extract(31, 0, K)
    if (k32.get_id(), 64) not in NSW and ex.decide(ult(64, T, 1 << 31), 400) is True:
        NSW[(k32.get_id(), 64)] = NUW[(k32.get_id(), 64)] = (k32, K)
    for v in list(phi1.values()) + list(cv.values()):
        if not (isinstance(v, z3.ExprRef) and z3.is_bv(v) and v.size() == 32) or (v.get_id(), 64) in NSW:
            continue
        c, co = lin(v, 32)
        if k32.get_id() not in co:
            continue
        co = dict(co)
        s = sgn(co.pop(k32.get_id())[1], 32)
        init = unlin((c, co), 32)
        if K.get_id() in consts_of(init):
            continue
        i64 = known_sext(init)
        if i64 is None:
            i64 = sext(32, 64, init)
        last = add(64, i64, mul(64, T, s & mask(64)))
        ok = b_and(bnot(ult(64, 1 << 32, T)), slt(64, last, 1 << 31), bnot(slt(64, last, (-(1 << 31)) & mask(64))))
        if ex.decide(ok, 400) is True:
            NSW[(v.get_id(), 64)] = (v, add(64, i64, mul(64, K, s & mask(64))))
            if isinstance(init, int) and not init >> 31 and s > 0:
                NUW[(v.get_id(), 64)] = NSW[(v.get_id(), 64)]


def fold(ex, todo, sols, K, phids):
    """recurrences: uninterpreted functions named after their step, so that the loop of a
    contract and the loop of the code that step alike are the same function"""
    todo = [(x, subst(v, sols)) for x, v in todo]
    # strongly connected groups, in order
    dep = {}
    for x, v in todo:
        cs = consts_of(v)
        dep[x.ph.get_id()] = [k for k in cs if k in phids and any(k == y.ph.get_id() for y, _ in todo)]
    items = {x.ph.get_id(): (x, v) for x, v in todo}
    done = set()
    while len(done) < len(items):
        prog = False
        for k0 in items:
            if k0 in done:
                continue
            # closure of k0
            grp, st = [], [k0]
            while st:
                k = st.pop()
                if k in grp or k in done:
                    continue
                grp.append(k)
                st += dep[k]
            # k0's group is a component when everything in it reaches k0
            if all(reaches(dep, k, k0, done) for k in grp):
                solve_fold(ex, [items[k] for k in grp], sols, K)
                done.update(grp)
                prog = True
                break
        if not prog:
            raise Unsupported('recurrence')


def reaches(dep, a, b, done):
    seen, st = set(), [a]
    while st:
        k = st.pop()
        if k == b:
            return True
        if k in seen or k in done:
            continue
        seen.add(k)
        st += dep[k]
    return False


def skeleton(t, memo):
    k = t.get_id()
    r = memo.get(k)
    if r is None:
        if not z3.is_app(t):
            r = 'q'
        elif t.num_args():
            r = '(' + t.decl().name() + ' ' + ' '.join(skeleton(c, memo) for c in t.children()) + ')'
        elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = t.decl().name()
            r = n if n.startswith('c!') else '?%s' % t.sort()
        else:
            r = str(t)
        memo[k] = r
    return r


def commute(t, names, memo, done):
    """operands of commutative functions in an order that does not depend on names"""
    k = t.get_id()
    if k in done:
        return done[k][1]
    r = t
    if z3.is_app(t) and t.num_args():
        ch = [commute(c, names, memo, done) for c in t.children()]
        if t.decl().name() in names:
            ch.sort(key=lambda c: skeleton(c, memo))
        if any(not a.eq(b) for a, b in zip(ch, t.children())):
            r = t.decl()(*ch)
    done[k] = (t, r)
    return r


def canon(ex, exprs, fixed):
    names = getattr(ex, 'commutative', None)
    if names:
        exprs = [z3.substitute(e, *fixed) if isinstance(e, z3.ExprRef) else e for e in exprs]
        exprs = [commute(e, names, {}, {}) if isinstance(e, z3.ExprRef) else e for e in exprs]
        fixed = [(c, c) for _, c in fixed]
    return canon1(ex, exprs, fixed)


def canon1(ex, exprs, fixed):
    """rename the constants of the expressions, in order of occurrence: (canonical, arguments)"""
    order, seen = [], set()
    fx = {c.get_id() for c, _ in fixed}
    for e in exprs:
        st = [e] if isinstance(e, z3.ExprRef) else []
        while st:
            t = st.pop()
            k = t.get_id()
            if k in seen:
                continue
            seen.add(k)
            if z3.is_app(t):
                if t.num_args():
                    st.extend(reversed(t.children()))
                elif t.decl().kind() == z3.Z3_OP_UNINTERPRETED and k not in fx:
                    order.append(t)
    ren = list(fixed)
    for n, t in enumerate(order):
        nm = 'c!%d!%s' % (n, t.sort())
        ren.append((t, z3.Const(nm, t.sort())))
    out = []
    for e in exprs:
        out.append(z3.substitute(e, *ren) if isinstance(e, z3.ExprRef) else e)
    return out, order


def solve_fold(ex, grp, sols, K):
    exprs = []
    for x, v in grp:
        v = subst(v, sols)
        if isinstance(v, (Ptr, PIte)):
            raise Unsupported('recurrence of a pointer')
        exprs.append(zb(v) if x.w == 0 else bv(v, x.w))
    fixed = [(K, z3.BitVec('c!K', 64))] + [(x.ph, z3.Const('c!p%d!%d' % (j, x.w), x.ph.sort())) for j, (x, v) in enumerate(grp)]
    can, args = canon(ex, exprs, fixed)
    key = tuple(c.get_id() for c in can)
    ent = ex.folds.get(key)
    if ent is None:
        n = len(ex.folds)
        fs = []
        sorts = [a.sort() for a in args] + [x.ph.sort() for x, v in grp] + [z3.BitVecSort(64)]
        for j, (x, v) in enumerate(grp):
            fs.append(z3.Function('fold!%d!%d' % (n, j), *sorts, x.ph.sort()))
        ent = (can, fs, [x for x, v in grp])
        ex.folds[key] = ent

        def axiom(app, fs=fs, can=can, nargs=len(args), ng=len(grp)):
            ch = app.children()
            a, init, k = ch[:nargs], ch[nargs:nargs + ng], ch[-1]
            r = []
            km1 = k - 1
            prev = [f(*a, *init, km1) for f in fs]
            ren = [(z3.BitVec('c!K', 64), km1)]
            for j in range(ng):
                ren.append((z3.Const('c!p%d!%d' % (j, 0 if z3.is_bool(prev[j]) else prev[j].size()), prev[j].sort()), prev[j]))
            # constants c!n!sort -> arguments
            for j in range(nargs):
                ren.append((z3.Const('c!%d!%s' % (j, a[j].sort()), a[j].sort()), a[j]))
            for j in range(ng):
                full = fs[j](*a, *init, k)
                step = z3.substitute(can[j], *ren)
                r.append(z3.Implies(k == 0, full == init[j]))
                r.append(z3.Implies(k != 0, full == step))
            return r
        ex.fold_axioms = getattr(ex, 'fold_axioms', {})
        for f in fs:
            ex.fold_axioms[f.name()] = axiom
    can, fs, _ = ent
    inits = [zb(x.init) if x.w == 0 else bv(x.init, x.w) for x, v in grp]
    for j, (x, v) in enumerate(grp):
        x.sol = fs[j](*args, *inits, K)
        sols.append((x.ph, x.sol))


def exit_recs(ex, fr, L, old, g0):
    out = []
    for s, recs in fr.edges.items():
        n = old.get(s, 0)
        if len(recs) > n and s not in L.blocks:
            for r in recs[n:]:
                if r.g is not None:
                    out.append((r.pred, s, r))
            del recs[n:]
    for s in [s for s, r in fr.edges.items() if not r]:
        del fr.edges[s]
    if len(fr.rets) and False:
        raise Unsupported('')
    return out


def trip(ex, exits, g0, K, fr, nexc):
    """index of the last iteration: (T, generic, facts)"""
    exits = [e for e in exits if ex.feasible(e[2].g)] if len(exits) > 1 else exits
    if not exits:
        raise Unsupported('loop without an exit')
    if len(exits) == 1:
        r = gminus(exits[0][2].g, g0)
        r = [c for c in r if K.get_id() in consts_of(c)]
        if len(r) == 1:
            t = closed(ex, r[0], K)
            if t is not None:
                return t[0], False, t[1]
    T = fresh_outer(ex, 'T')
    sv, gs = ex.g, []
    for e in exits:                  # what every iteration satisfies says nothing about the exit
        own = gminus(e[2].g, g0)
        ex.g = g0
        gs.append(gz(tuple(x for x in own if not (isinstance(x, z3.ExprRef) and T_in(x) and ex.decide(x, 400) is True))))
    ex.g = sv
    c = b_or(*gs)
    facts = [b_or(bnot(gz(g0)), subst(c, [(K, T)])), z3.ULT(T, 1 << 60)]
    J = z3.BitVec('J!%d' % next_id(ex), 64)
    facts.append(z3.ForAll([J], z3.Implies(z3.ULT(J, T), z3.Not(zb(subst(c, [(K, J)]))))))
    return T, True, facts


def T_in(x):
    return len(apps_of(x)) > 0


def apps_of(x):
    out, seen, st = [], set(), [x]
    while st:
        t = st.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('T!'):
            out.append(t)
        st += t.children()
    return out


def fresh_outer(ex, name):
    k = ex.binders.pop()
    r = ex.fresh(64, name)
    ex.binders.append(k)
    return r


def pulls(t, K, w):
    """t = a + s*K over w bits: (a, s) or None"""
    if isinstance(t, int):
        return t, 0
    if w not in (32, 64):
        return None
    c, co = lin(t, w)
    kk = K if w == 64 else z3.Extract(w - 1, 0, K)
    s = 0
    rest = dict(co)
    if kk.get_id() in rest:
        s = rest.pop(kk.get_id())[1]
    a = unlin((c, rest), w)
    if K.get_id() in consts_of(a):
        return None
    return a, sgn(s, w)


def closed(ex, c, K):
    """the first K at which the exit condition c holds"""
    neg_ = False
    while z3.is_not(c):
        neg_ = not neg_
        c = c.arg(0)
    k = c.decl().kind()
    if c.num_args() != 2 or not z3.is_bv(c.arg(0)):
        return None
    x, y = unval(c.arg(0)), unval(c.arg(1))
    w = c.arg(0).size()
    ext = lambda v: v if w == 64 else zext(w, 64, v)
    if k == z3.Z3_OP_EQ:
        p = pulls(sub(w, x, y), K, w) if w in (32, 64) else None
        if p is None:
            return None
        a, s = p
        if s == 0:
            return None
        if neg_:
            return None
        d = sub(w, 0, a) if s > 0 else a     # |s| * K == d
        s = abs(s)
        if s == 1:
            return ext(d), []
        j = log2(s & -s)
        try:
            q = divc(d, s) if w == 64 else None
        except Split:
            return None
        if q is not None and log2(s) is None:
            return q, []
        if log2(s) is not None:
            facts = [urem(w, d, s) == 0] if not isinstance(urem(w, d, s), int) else []
            if w == 64:
                return q, facts
            return ext(lshr(w, d, log2(s))), facts
        return None
    if k in (z3.Z3_OP_ULT, z3.Z3_OP_SLT, z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ):
        signed = k in (z3.Z3_OP_SLT, z3.Z3_OP_SLEQ)
        lt = k in (z3.Z3_OP_ULT, z3.Z3_OP_SLT)
        px, py = pulls(x, K, w), pulls(y, K, w)
        if px is None or py is None:
            return None
        # continue condition: not exit
        cont_pos = neg_        # the loop goes on while (x < y) when the exit is its negation
        L_ = slt if signed else ult
        if px[1] and not py[1]:
            a, s, b, left = px[0], px[1], y, True
        elif py[1] and not px[1]:
            a, s, b, left = py[0], py[1], x, False
        else:
            return None
        # going up: goes on while a+sK < b (or <= b); going down: while a+sK > b (or >= b)
        if lt:
            if cont_pos:
                up, strict = left, True         # x<y
            else:
                up, strict = (not left), False  # goes on while y <= x
        else:
            if cont_pos:
                up, strict = left, False
            else:
                up, strict = (not left), True
        if up != (s > 0):
            return None
        st = abs(s)
        lo, hi = (a, b) if up else (b, a)
        facts = []
        top = mask(w - 1) if signed else mask(w)
        if strict:
            n = add(w, udiv(w, sub(w, sub(w, hi, lo), 1), st), 1)
            c0 = L_(w, lo, hi)
        else:
            n = add(w, udiv(w, sub(w, hi, lo), st), 1)
            c0 = bnot(L_(w, hi, lo))
        if st > 1 or not strict:
            # the counter does not wrap round before it passes the bound
            slack = st - 1 if strict else st
            if up:
                ex.oblige('loop counter does not wrap', b_or(bnot(c0), bnot(L_(w, (top - slack) & mask(w), hi))))
            else:
                bot = (-(1 << (w - 1))) & mask(w) if signed else 0
                ex.oblige('loop counter does not wrap', b_or(bnot(c0), bnot(L_(w, lo, add(w, bot, slack)))))
        if strict and up and isinstance(lo, int) and sgn(lo, w) >= st - 1:
            base_ = lo - (st - 1)
            if ex.decide(bnot(L_(w, hi, base_)), 400) is True:
                return ext(udiv(w, sub(w, hi, base_), st)), facts
        return ite(ex.decide(c0, 400), ext(n), 0, 64), facts
    return None


def effects(ex, fr, mk, cells, K, T, wlog, rlog, rc, g0):
    """memory after the loop, the conditions under which the iterations are independent, and
    what an enclosing loop has to know"""
    regs = {}
    for e in wlog:
        if e[0].id <= rc:
            regs.setdefault(e[0], []).append(e)
    outw, outr = [], []
    carried = {}
    for key in cells:
        carried.setdefault(key[0], []).append(key)
    for reg, es in regs.items():
        ws = [e[1] for e in es if e[1] != 'cell']
        reads = [r for r in rlog if r[0] is reg and not covered(r, carried.get(reg, ()))]
        if ws:
            independence(ex, reg, ws, reads, K, carried.get(reg, []))
    finals = {}
    for key in cells:
        reg, off, n = key
        v = ex.mem.rd(reg, reg.layers, len(reg.layers), None, off, n, False)
        finals[key] = subst(v, [(K, T)]) if not isinstance(v, Undef) else v
    saved = mk[0]
    for reg in list(saved):
        if reg.id > rc:
            continue
        reg.layers = list(saved[reg])
        reg.frozen = True
    # apply, logging into the enclosing loop
    for key, v in finals.items():
        reg, off, n = key
        ex.mem.wlog = None
        for m in ex.mem.marks:
            if m is not saved and reg not in m:
                m[reg] = saved[reg] if reg in saved else ex.mem.snap(reg)
        # where the loop is not entered the cell keeps what it held
        ex.mem.cell_write(reg, gz(g0), off, n, v)
        outw.append((reg, 'cell', off, n, g0))
    for reg, es in regs.items():
        ws = [e[1] for e in es if e[1] != 'cell']
        for m in ex.mem.marks:
            if m is not saved and reg not in m:
                m[reg] = saved[reg]
        for w in ws:
            w2 = W(((K, T),) + tuple(w.b), w.g, w.idx, w.off, w.kind, w.n, w.val, w.src)
            reg.layers = reg.layers + [w2]
            outw.append((reg, w2))
    for r in rlog:
        if r[0].id <= rc:
            outr.append(r)
    # regions allocated by the iterations are a family indexed by K: nothing to do
    return outw, outr


def covered(r, keys):
    reg, idx, off, n = r[:4]
    if not isinstance(off, int):
        return False
    return any(k[1] <= off and off + n <= k[1] + k[2] for k in keys)


def independence(ex, reg, ws, reads, K, cellkeys):
    J = z3.BitVec('J!%d' % next_id(ex), 64)

    def other(w):
        """the write in iteration J"""
        ren = [(K, J)]
        facts = []
        for k_, t in w.b:
            j = z3.BitVec('J!%d' % next_id(ex), 64)
            ren.append((k_, j))
        for k_, t in w.b:
            j = [y for x, y in ren if x is k_][0]
            facts.append(bnot(ult(64, subst(t, ren), j)))
        return ren, facts
    for w in ws:
        for r in reads:
            clash(ex, reg, r[1], r[2], r[3], gz(r[4]), w, other, K, J, 'read', True)
    for i, a in enumerate(ws):
        for b in ws[i:]:
            if a is b and a.kind == 'st' and no_self_clash(a, K):
                continue
            clash(ex, reg, a.idx, a.off, a.n, a.g, b, other, K, J, 'write', False)
    for key in cellkeys:
        for w in ws:
            clash(ex, reg, None, key[1], key[2], True, w, other, K, J, 'cell', None)


def no_self_clash(w, K):
    if w.idx is not None and not isinstance(w.idx, int):
        c, co = lin(w.idx, 64)
        if K.get_id() in co and co[K.get_id()][1] in (1, M64) and all(x.get_id() == K.get_id() or not has(x, K) for x, y in co.values()):
            if not any(k_.get_id() in co for k_, t in w.b):
                return True
    if not w.b and not isinstance(w.off, int):
        c, co = lin(w.off, 64)
        if K.get_id() in co and all(x.get_id() == K.get_id() or not has(x, K) for x, y in co.values()):
            s = abs(sgn(co[K.get_id()][1], 64))
            if isinstance(w.n, int) and s >= w.n and s < 1 << 40:
                return True
    return False


def has(t, K):
    return K.get_id() in consts_of(t)


def clash(ex, reg, idx, off, n, g, w, other, K, J, what, earlier):
    """obligation: the access (idx, off, n) of iteration K does not meet the write w of
    iteration J; earlier: J < K, otherwise J != K (None: any J)"""
    # quick answers on affine addresses
    if earlier is not None and idx is not None and w.idx is not None:
        a, b = lin(idx, 64) if not isinstance(idx, int) else (idx, {}), lin(w.idx, 64) if not isinstance(w.idx, int) else (w.idx, {})
        if K.get_id() in a[1] and same(idx, w.idx) and all(x.get_id() == K.get_id() or not has(x, K) for x, y in a[1].values()) \
           and not any(k_.get_id() in a[1] for k_, t in w.b):
            return
    if earlier is not None and not w.b and isinstance(n, int) and isinstance(w.n, int) and not isinstance(w.off, int) and (idx is None or same(idx, w.idx) and not has_any(idx, K)):
        c, co = lin(w.off, 64)
        if K.get_id() in co and all(x.get_id() == K.get_id() or not has(x, K) for x, y in co.values()):
            s = sgn(co[K.get_id()][1], 64)
            d = sub(64, off, w.off)
            if isinstance(d, int) and abs(s) < 1 << 40:
                d = sgn(d, 64)
                # access - write(J) = d + s*(K-J)
                okp = d + s >= w.n if s > 0 else d + s <= -n
                if earlier:
                    if okp:
                        return
                else:
                    okm = d - s <= -n if s > 0 else d - s >= w.n
                    if okp and okm:
                        return
    ren, facts = other(w)
    woff, widx, wg, wn = subst(w.off, ren), None if w.idx is None else subst(w.idx, ren), subst(w.g, ren), w.n if isinstance(w.n, int) else subst(w.n, ren)
    d1 = ult(64, sub(64, off, woff), wn)      # access starts inside the write
    d2 = ult(64, sub(64, woff, off), n)       # write starts inside the access
    c = [b_or(d1, d2)]
    if idx is not None and widx is not None:
        c.append(eq(64, idx, widx))
    if earlier is True:
        c.append(ult(64, J, K))
    elif earlier is False:
        c.append(bnot(eq(64, J, K)))
    # J stays in the range of the loop (facts about K hold of J as well)
    c += facts
    kf = []
    for f in ex.facts[-40:]:
        if isinstance(f, z3.ExprRef) and not z3.is_quantifier(f) and K.get_id() in consts_of(f):
            kf.append(z3.substitute(f, *[(a, bv(b, 64)) for a, b in ren]))
    goal = bnot(b_and(g, wg, *c, *kf))
    ex.oblige('iterations are independent: %s of %s' % (what, reg.name), goal)


def has_any(t, K):
    return not isinstance(t, int) and has(t, K)
