"""Guarded symbolic execution of LLVM IR with loop summaries: the verification
condition generator.  See DESIGN.md for the rules."""
import re, subprocess, time
import z3
from . import ir
from .val import *
from .mem import *

WORD = 64


class Ob:
    __slots__ = ('name', 'nf', 'goal', 'kind', 'where', 'facts')

    def __init__(self, name, nf, goal, kind, where):
        self.name, self.nf, self.goal, self.kind, self.where = name, nf, goal, kind, where


class Rec:
    """control reaching a block: guard and the values of its phis"""
    __slots__ = ('g', 'phi', 'pred')

    def __init__(self, g, phi, pred):
        self.g, self.phi, self.pred = g, phi, pred


class Frame:
    def __init__(self, f):
        self.f, self.env, self.edges, self.rets, self.exc = f, {}, {}, [], []


class Exec:
    def __init__(self, mod, demangle=None, subst_=None, opts=None):
        self.m = mod
        self.mem = Mem(self)
        self.facts, self.obs = [], []
        self.g = ()
        self.globals, self.tables = {}, {}
        self.names = demangle or {}
        self.subst = subst_ or []
        self.invariants = []         # templates (invariants.py)
        self.invariants_found = []
        self.subcache = {}
        self.opts = opts or {}
        self.stack = []
        self.binders = []          # enclosing summarised loops: K constants
        self.fresh_n = 0
        self.funcs_used = {}       # mangled name -> 'executed' | 'contract'
        self.axioms = {}           # UF name -> function(app) -> [facts]
        self.folds = {}
        self.feas_cache = {}
        self.dec_cache, self.symcache = {}, {}
        self.exc_cur = None
        self.bounded = []
        self.solver_ms = 0
        self.inst_count = 0
        self.loops_summarised = 0
        self.loops_unrolled = 0
        self.soft = set()
        self.trial, self.unknown = 0, {}
        self.seen_ob = set()
        self.deadline = None
        self.stats = {}

    # ---------------------------------------------------------- helpers
    def fresh(self, w, name='v'):
        self.fresh_n += 1
        n = '%s!%d' % (name, self.fresh_n)
        if self.binders:
            f = z3.Function(n, *([z3.BitVecSort(64)] * len(self.binders)), z3.BitVecSort(w) if w else z3.BoolSort())
            return f(*self.binders)
        return z3.BitVec(n, w) if w else z3.Bool(n)

    def fact(self, c):
        if c is True:
            return
        if c is False:
            c = z3.BoolVal(False)
        learn_ub(c)
        self.facts.append(c)

    def oblige(self, name, goal, g=None, kind='safety'):
        g = self.g if g is None else g
        if kind == 'ring' and goal is True and g is not None:      # decided by normal form
            self.obs.append(Ob(name, len(self.facts), True, kind, self.stack[-1].f.name if self.stack else ''))
            return
        if goal is True or g is None:
            return
        t = b_or(bnot(gz(g)), goal) if g else goal
        if t is True:
            return
        key = (name, t if isinstance(t, bool) else t.get_id())
        if key in self.seen_ob and kind == 'safety':
            return
        self.seen_ob.add(key)
        self.obs.append(Ob(name, len(self.facts), t, kind, self.stack[-1].f.name if self.stack else ''))

    def feasible(self, g, ms=400):
        if g is None:
            return False
        if not g:
            return True
        key = (tuple(sorted(c.get_id() for c in g)), len(self.facts))
        r = self.feas_cache.get(key)
        if r is not None:
            return r[1]
        t0 = time.time()
        s = z3.Solver()
        s.set('rlimit', ms * 6000)     # not seconds: the outcome must not depend on the load
        s.set('timeout', ms * 30)
        hyp = list(g)
        for a in self.facts + hyp + self.instances(self.facts + hyp):
            s.add(a)
        r = s.check() != z3.unsat
        self.solver_ms += (time.time() - t0) * 1000
        self.feas_cache[key] = (g, r)
        return r

    def decide(self, c, ms=150):
        """a condition that the facts and the present guard settle becomes a constant"""
        if isinstance(c, bool) or not self.opts.get('decide', True):
            return c
        key = (c.get_id(), tuple(x.get_id() for x in self.g or ()), len(self.facts))
        r = self.dec_cache.get(key)
        if r is not None:
            return r[2]
        from . import solve
        t0 = time.time()
        goal = c
        ctx = [f for f in self.facts + list(self.g or ()) if isinstance(f, z3.ExprRef) and not z3.is_quantifier(f)]
        ctx = solve.slice_easy(ctx, goal, self.symcache)
        res = c
        s = z3.SolverFor('QF_UFBV')
        s.set('rlimit', ms * 6000)     # not seconds: the outcome must not depend on the load
        s.set('timeout', ms * 30)
        for f in ctx:
            s.add(f)
        s.push()
        s.add(z3.Not(goal))
        if s.check() == z3.unsat:
            res = True
        else:
            s.pop()
            s.add(goal)
            if s.check() == z3.unsat:
                res = False
        self.solver_ms += (time.time() - t0) * 1000
        self.dec_cache[key] = (c, self.g, res)
        return res

    def instances(self, terms, rounds=2):
        """axiom instances for the uninterpreted functions occurring in the terms"""
        if not self.axioms:
            return []
        out, seen, cur = [], set(), list(terms)
        for _ in range(rounds):
            apps = []
            st = [t for t in cur if isinstance(t, z3.ExprRef)]
            while st:
                t = st.pop()
                k = t.get_id()
                if k in seen:
                    continue
                seen.add(k)
                if z3.is_app(t):
                    if t.num_args():
                        st.extend(t.children())
                    if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        ax = self.axioms.get(t.decl().name())
                        if ax:
                            apps.append((ax, t))
            cur = []
            for ax, t in apps:
                cur += [zb(c) for c in ax(t)]
            self._keep = getattr(self, '_keep', [])
            self._keep.append(cur)
            out += cur
            if not cur:
                break
        return out

    # ---------------------------------------------------------- globals and constants
    def glob(self, name):
        r = self.globals.get(name)
        if r is not None:
            return r
        if name in self.m.rawf or name in self.m.decl:
            r = Region(name, 0)
            r.func = name
            p = Ptr(r)
        else:
            const, ty, init = self.m.glob(name)
            if const == 'alias' or init == 'alias':
                raise Unsupported('alias')
            if const is False or const is True:
                reg = Region(name, self.m.size(ty), 'zero' if init is not None else 'undef', ro=bool(const))
                if init is None:
                    reg.base = 'undef'
                p = Ptr(reg)
                self.globals[name] = p
                if init is not None and init[0] not in ('zero', 'undef'):
                    def lazy(rg, ty=ty, init=init):
                        rg.lazy = None
                        self.init_cells(rg, 0, ty, init)
                    reg.lazy = lazy
                return p
            raise Unsupported('global ' + name)
        self.globals[name] = p
        return p

    def init_cells(self, reg, off, ty, v):
        k = v[0]
        if k in ('zero', 'undef'):
            return
        t = ty
        while t[0] == 'n':
            t = self.m.types[t[1]]
        if k == 'str':
            b = decode(v[1])
            for i, x in enumerate(b):
                self.mem.cell_write(reg, True, off + i, 1, x)
            return
        if k == 'agg':
            if t[0] == 's':
                offs = self.m.struct(t)[0]
                for i, (et, ev) in enumerate(v[1]):
                    self.init_cells(reg, off + offs[i], et, ev)
            else:
                sz = self.m.size(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init_cells(reg, off + i * sz, et, ev)
            return
        x = self.const(t, v)
        if t[0] == 'p':
            self.mem.cell_write(reg, True, off, 8, x)
        elif isinstance(x, float):
            reg.layers.append({off: (self.m.size(t), x)}) if not reg.layers else reg.layers[-1].__setitem__(off, (self.m.size(t), x))
        else:
            self.mem.cell_write(reg, True, off, self.m.size(t), x)

    def table(self, reg, cells, n):
        key = (reg.id, len(cells), n, id(cells))
        r = self.tables.get(key)
        if r is not None and r[1] is cells:
            return r[0]
        a = z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8 * n))
        for s, (w, v) in sorted(cells.items()):
            a = z3.Store(a, z3.BitVecVal(s // n, 64), bv(v, 8 * n))
        self.tables[key] = (a, cells)
        return a

    def const(self, ty, v):
        k = v[0]
        while ty[0] == 'n':
            ty = self.m.types[ty[1]]
        if k == 'c':
            if ty == ('i', 1):
                return bool(v[1] & 1)
            if ty[0] == 'i':
                return v[1] & mask(ty[1])
            raise Unsupported('constant')
        if k == 'null':
            return Ptr(None, 0)
        if k == 'undef':
            return self.undef(ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            vals = [self.const(t, x) for t, x in v[1]]
            if ty[0] == 'v':
                return Vec(vals, lane_w(ty[2]))
            return tuple(vals)
        if k == 'g':
            return self.glob(v[1])
        if k == 'gep':
            return self.gep(v[1], [(t, self.const(t, x)) for t, x in v[2]])
        if k == 'cast':
            return self.cast(v[1], v[2], self.const(v[2], v[3]), v[4])
        if k == 'bin':
            a, b = self.const(v[2], v[3]), self.const(v[2], v[4])
            if v[1] == 'icmp':
                return self.icmp(v[5], v[2], a, b)
            return self.binop(v[1], v[2], a, b)
        if k == 'f':
            return parse_float(v[1])
        raise Unsupported('constant %r' % (v,))

    def undef(self, ty):
        return UNDEF

    def defv(self, v, ty):
        """an undefined value becomes an arbitrary one"""
        if not isinstance(v, Undef):
            return v
        while ty[0] == 'n':
            ty = self.m.types[ty[1]]
        if ty == ('i', 1):
            return self.fresh(0, 'undef')
        if ty[0] == 'i':
            return self.fresh(ty[1], 'undef')
        if ty[0] == 'v':
            return Vec([self.defv(UNDEF, ty[2]) for _ in range(ty[1])], lane_w(ty[2]))
        if ty[0] == 'p':
            r = Region('undefined pointer', 0)
            return Ptr(r, 0)
        if ty[0] == 'f':
            return 0.0
        if ty[0] == 's':
            return tuple(UNDEF for _ in ty[1])
        if ty[0] == 'a':
            return tuple(UNDEF for _ in range(ty[1]))
        raise Unsupported('undef of %r' % (ty,))

    def zero(self, ty):
        while ty[0] == 'n':
            ty = self.m.types[ty[1]]
        if ty == ('i', 1):
            return False
        if ty[0] == 'i':
            return 0
        if ty[0] == 'p':
            return Ptr(None, 0)
        if ty[0] == 'v':
            return Vec([self.zero(ty[2])] * ty[1], lane_w(ty[2]))
        if ty[0] == 's':
            return tuple(self.zero(t) for t in ty[1])
        if ty[0] == 'a':
            return tuple(self.zero(ty[2]) for _ in range(ty[1]))
        if ty[0] == 'f':
            return 0.0
        raise Unsupported('zero of %r' % (ty,))

    def val(self, fr, ty, v):
        if v[0] == 'r':
            return fr.env[v[1]]
        return self.const(ty, v)

    def vald(self, fr, ty, v):
        x = self.val(fr, ty, v)
        if isinstance(x, Undef):
            x = self.defv(x, ty)
            if v[0] == 'r':
                fr.env[v[1]] = x
        elif isinstance(x, Vec) and any(isinstance(e, Undef) for e in x.e):
            t = ty
            while t[0] == 'n':
                t = self.m.types[t[1]]
            x = Vec([self.defv(e, t[2]) for e in x.e], x.w)
            if v[0] == 'r':
                fr.env[v[1]] = x
        return x

    # ---------------------------------------------------------- operations
    def binop(self, op, ty, a, b):
        if isinstance(a, Vec):
            w = a.w
            return Vec([self.binop1(op, w, x, y) for x, y in zip(a.e, b.e)], w)
        if ty[0] == 'f':
            return self.fbin(op, a, b)
        return self.binop1(op, 0 if ty == ('i', 1) else ty[1], a, b)

    def fbin(self, op, a, b):
        if isinstance(a, float) and isinstance(b, float):
            if op == 'fadd':
                return a + b
            if op == 'fsub':
                return a - b
            if op == 'fmul':
                return a * b
            if op == 'fdiv' and b:
                return a / b
        raise Unsupported('floating point')

    def binop1(self, op, w, a, b):
        if w == 0 or isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, z3.ExprRef) and z3.is_bool(a)):
            if op == 'xor':
                if isinstance(b, bool):
                    return bnot(a) if b else a
                if isinstance(a, bool):
                    return bnot(b) if a else b
                return bnot(a) if False else z3.Xor(zb(a), zb(b))
            if op in ('and', 'mul'):
                return b_and(a, b)
            if op == 'or':
                return b_or(a, b)
            if op in ('add', 'sub'):
                return unbool(z3.simplify(z3.Xor(zb(a), zb(b))))
            raise Unsupported('i1 ' + op)
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            return self.ptrarith(op, w, a, b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if isinstance(b, int):
                if b == 0:
                    self.oblige('division by zero', False)
                    return self.fresh(w, 'div0')
            else:
                self.oblige('division by zero', bnot(eq(w, b, 0)))
            if op in ('udiv', 'urem') and w == 128:
                # narrow when both operands fit
                ua, ub_ = ub(a, w), ub(b, w)
                m = max(ua, ub_).bit_length()
                if m <= 64:
                    n = 32 if m <= 32 else 64
                    return zext(n, w, BINOP[op](n, trunc(w, n, a), trunc(w, n, b)))
        return BINOP[op](w, a, b)

    def ptrarith(self, op, w, a, b):
        if isinstance(a, PIte):
            return vite(a.c, self.ptrarith(op, w, a.a, b), self.ptrarith(op, w, a.b, b), w)
        if isinstance(b, PIte):
            return vite(b.c, self.ptrarith(op, w, a, b.a), self.ptrarith(op, w, a, b.b), w)
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.reg is b.reg:
                self.same_obj(a, b)
                return sub(64, a.off, b.off)
        elif op == 'sub' and isinstance(a, Ptr):
            return Ptr(a.reg, sub(64, a.off, b), a.idx)
        elif op == 'add':
            if isinstance(b, Ptr) and not isinstance(a, Ptr):
                a, b = b, a
            if not isinstance(b, Ptr):
                return Ptr(a.reg, add(64, a.off, b), a.idx)
        if not isinstance(a, (Ptr, PIte)) and not isinstance(b, (Ptr, PIte)):
            return BINOP[op](w, a, b)
        return BINOP[op](w, self.address(a), self.address(b))

    def same_obj(self, a, b):
        if a.idx is not None:
            self.oblige('pointers into the same buffer', eq(64, a.idx, b.idx))

    def address(self, p):
        if not isinstance(p, (Ptr, PIte)):
            return p
        if isinstance(p, PIte):
            return ite(p.c, self.address(p.a), self.address(p.b), 64)
        if p.reg is None:
            return p.off
        if p.reg.addr is None:
            if p.reg.fam is not None:
                p.reg.addr = z3.Function('addr_%d' % p.reg.id, z3.BitVecSort(64), z3.BitVecSort(64))
                al = p.reg.align

                def ax(app, al=al):
                    return [z3.URem(app, z3.BitVecVal(al, 64)) == 0, z3.UGT(app, z3.BitVecVal(4096, 64)), z3.ULT(app, z3.BitVecVal(1 << 47, 64))]
                self.axioms['addr_%d' % p.reg.id] = ax
            else:
                p.reg.addr = z3.BitVec('addr_%d' % p.reg.id, 64)
                self.fact(p.reg.addr & z3.BitVecVal(p.reg.align - 1, 64) == 0)
                self.fact(z3.UGT(p.reg.addr, 4096))
                self.fact(z3.ULT(p.reg.addr, 1 << 47))
        base = p.reg.addr(bv(p.idx, 64)) if p.reg.fam is not None else p.reg.addr
        return add(64, base, p.off)

    def icmp(self, pred, ty, a, b):
        if isinstance(a, Vec):
            return Vec([self.icmp1(pred, a.w, x, y) for x, y in zip(a.e, b.e)], 0)
        return self.icmp1(pred, 64 if ty[0] == 'p' else ty[1], a, b)

    def icmp1(self, pred, w, a, b):
        if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
            return self.pcmp(pred, a, b)
        if isinstance(a, bool) or (isinstance(a, z3.ExprRef) and z3.is_bool(a)) or isinstance(b, bool):
            if pred == 'eq':
                return bite(a, b, bnot(b))
            if pred == 'ne':
                return bite(a, bnot(b), b)
            a, b = ite(a, 1, 0, 1), ite(b, 1, 0, 1)
            return icmp(pred, 1, a, b)
        return icmp(pred, w, a, b)

    def pcmp(self, pred, a, b):
        if isinstance(a, PIte):
            return bite(a.c, self.pcmp(pred, a.a, b), self.pcmp(pred, a.b, b))
        if isinstance(b, PIte):
            return bite(b.c, self.pcmp(pred, a, b.a), self.pcmp(pred, a, b.b))
        if not isinstance(a, Ptr):
            a = Ptr(None, a)
        if not isinstance(b, Ptr):
            b = Ptr(None, b)
        if a.reg is b.reg:
            if a.reg is None or pred in ('eq', 'ne'):
                e = icmp(pred, 64, a.off, b.off)
                if a.idx is not None:
                    i = eq(64, a.idx, b.idx)
                    e = b_and(i, e) if pred == 'eq' else b_or(bnot(i), e) if pred == 'ne' else e
                return e
            self.same_obj(a, b)
            return icmp(pred, 64, a.off, b.off)
        if pred in ('eq', 'ne'):
            # distinct objects (an address one past the end is not compared across objects)
            return pred == 'ne'
        return icmp(pred, 64, self.address(a), self.address(b))

    def cast(self, op, t1, v, t2):
        if op == 'bitcast':
            return self.bitcast(t1, v, t2)
        if op == 'ptrtoint':
            if t2[1] != 64:
                return trunc(64, t2[1], self.address(v))
            if isinstance(v, Ptr) and v.reg is None:
                return v.off
            return v
        if op == 'inttoptr':
            return v if isinstance(v, (Ptr, PIte)) else Ptr(None, v)
        if isinstance(v, Vec):
            w2 = lane_w(t2[2])
            return Vec([self.cast1(op, v.w, x, w2) for x in v.e], w2)
        if op in ('uitofp', 'sitofp'):
            if isinstance(v, int):
                return float(v if op == 'uitofp' else sgn(v, t1[1]))
            raise Unsupported('floating point')
        if op in ('fptoui', 'fptosi'):
            if isinstance(v, float):
                return int(v) & mask(t2[1])
            raise Unsupported('floating point')
        if op in ('fpext', 'fptrunc'):
            return v
        return self.cast1(op, 0 if t1 == ('i', 1) else t1[1], v, 0 if t2 == ('i', 1) else t2[1])

    def cast1(self, op, w, v, w2):
        if isinstance(v, (Ptr, PIte)):
            v = self.address(v)
        if w == 0:
            if op == 'zext':
                return ite(v, 1, 0, w2)
            if op == 'sext':
                return ite(v, mask(w2), 0, w2)
            raise Unsupported('cast of i1')
        if op == 'zext':
            return zext(w, w2, v)
        if op == 'sext':
            return sext(w, w2, v)
        if op == 'trunc':
            if w2 == 0:
                x = trunc(w, 1, v)
                if isinstance(x, int):
                    return bool(x)
                return eq(1, x, 1)
            return trunc(w, w2, v)
        raise Unsupported(op)

    def bits(self, v, ty):
        """a value as one integer: (value, width)"""
        t = ty
        while t[0] == 'n':
            t = self.m.types[t[1]]
        if t[0] == 'v':
            if t[2] == ('i', 1):
                return concat([(ite(x, 1, 0, 1), 1) for x in v.e[::-1]]), t[1]
            w = lane_w(t[2])
            return concat([(x, w) for x in v.e[::-1]]), w * t[1]
        if t[0] == 'i':
            return v, t[1]
        raise Unsupported('bits of %r' % (t,))

    def bitcast(self, t1, v, t2):
        if t1 == t2 or t1[0] == 'p':
            return v
        if t1[0] == 'f' or t2[0] == 'f':
            raise Unsupported('float bitcast')
        if t1[0] == 'v' and t2[0] == 'v' and isinstance(v, Vec) and v.w > 0:
            w1, w2 = lane_w(t1[2]), lane_w(t2[2])
            if w2 > w1:
                k = w2 // w1
                return Vec([concat([(x, w1) for x in v.e[i:i + k][::-1]]) for i in range(0, len(v.e), k)], w2)
            out = []
            for x in v.e:
                for j in range(0, w1, w2):
                    out.append(extract(w1, j + w2 - 1, j, x))
            return Vec(out, w2)
        x, n = self.bits(v, t1)
        if t2[0] == 'i':
            return x
        if t2[2] == ('i', 1):
            return Vec([self.cast1('trunc', n, extract(n, i, i, x), 0) if n > 1 else x == 1 for i in range(t2[1])], 0)
        w = lane_w(t2[2])
        return Vec([extract(n, j + w - 1, j, x) for j in range(0, n, w)], w)

    def gep(self, bt, ops):
        p = ops[0][1]
        if isinstance(p, Vec):
            raise Unsupported('vector gep')
        off = 0
        t = bt
        first = True
        for ty, i in ops[1:]:
            if not isinstance(i, (int, bool)) and isinstance(i, (Ptr, PIte)):
                i = self.address(i)
            if first:
                off = add(64, off, mul(64, self.idx64(ty, i), self.m.size(t)))
                first = False
                continue
            while t[0] == 'n':
                t = self.m.types[t[1]]
            if t[0] == 's':
                off = add(64, off, self.m.struct(t)[0][i])
                t = t[1][i]
            else:
                t = t[2]
                off = add(64, off, mul(64, self.idx64(ty, i), self.m.size(t)))
        return self.padd(p, off)

    def padd(self, p, off):
        if isinstance(off, int) and off == 0:
            return p
        if isinstance(p, PIte):
            return PIte(p.c, self.padd(p.a, off), self.padd(p.b, off))
        if not isinstance(p, Ptr):
            p = Ptr(None, p)
        return Ptr(p.reg, add(64, p.off, off), p.idx)

    def idx64(self, ty, i):
        w = ty[1]
        if w < 64:
            return sext(w, 64, i)
        return i

    # ---------------------------------------------------------- memory access
    def check(self, p, n, what):
        reg = p.reg
        if reg is None:
            self.oblige('%s through a null or wild pointer' % what, False)
            return False
        if reg.func:
            raise Unsupported('access to code')
        if reg.freed is not False:
            self.oblige('%s of freed memory (%s)' % (what, reg.name), bnot(reg.freed))
        sz = reg.size
        if isinstance(p.off, int) and isinstance(sz, int):
            if p.off + n > sz:
                self.oblige('%s outside %s (%d bytes at %d of %d)' % (what, reg.name, n, p.off, sz), False)
                return False
        else:
            # off <= size - n, sizes are below 2^60
            if isinstance(sz, int) and sz < n:
                self.oblige('%s outside %s' % (what, reg.name), False)
                return False
            c = b_and(bnot(ult(64, sz, n)), bnot(ult(64, sub(64, sz, n), p.off)))
            self.oblige('%s stays inside %s' % (what, reg.name), c)
        return True

    def load(self, p, ty):
        if isinstance(p, PIte):
            g = self.g
            self.g = gand(g, p.c)
            a = UNDEF if self.g is None else self.load(p.a, ty)
            self.g = gand(g, bnot(p.c))
            b = UNDEF if self.g is None else self.load(p.b, ty)
            self.g = g
            if isinstance(a, Undef):
                return b
            if isinstance(b, Undef):
                return a
            return vite(p.c, a, b, None if ty[0] != 'i' else ty[1])
        if isinstance(p, Undef):
            raise Unsupported('load through an undefined pointer')
        t = ty
        while t[0] == 'n':
            t = self.m.types[t[1]]
        n = self.m.size(t)
        if not isinstance(p, Ptr):
            p = Ptr(None, p)
        if not self.check(p, n, 'read'):
            return UNDEF
        return self.load1(p, t)

    def load1(self, p, t):
        if t[0] == 'v':
            lw = self.m.size(t[2])
            return Vec([self.load1(Ptr(p.reg, add(64, p.off, i * lw), p.idx), t[2]) for i in range(t[1])], lane_w(t[2]))
        if t[0] in ('s', 'a', 'n'):
            while t[0] == 'n':
                t = self.m.types[t[1]]
            if t[0] == 's':
                o = self.m.struct(t)[0]
                return tuple(self.load1(Ptr(p.reg, add(64, p.off, o[i]), p.idx), x) for i, x in enumerate(t[1]))
            lw = self.m.size(t[2])
            return tuple(self.load1(Ptr(p.reg, add(64, p.off, i * lw), p.idx), t[2]) for i in range(t[1]))
        n = self.m.size(t)
        v = self.mem.read(p.reg, p.idx, p.off, n, ptr=t[0] == 'p')
        if isinstance(v, Undef):
            return v
        if t[0] == 'i':
            if isinstance(v, (Ptr, PIte)):
                return v if t[1] == 64 else trunc(64, t[1], self.address(v))
            if isinstance(v, float):
                raise Unsupported('float bits')
            if t[1] == 1:
                return self.cast1('trunc', 8 * n, v, 0)
            if t[1] != 8 * n:
                return trunc(8 * n, t[1], v)
            if isinstance(v, z3.ExprRef) and v.size() != t[1]:
                raise Unsupported('width')
            return v
        if t[0] == 'p':
            if not isinstance(v, (Ptr, PIte)):
                return Ptr(None, v)
            return v
        if t[0] == 'f':
            if isinstance(v, int):
                if v == 0:
                    return 0.0
            if isinstance(v, float):
                return v
            raise Unsupported('float load')
        raise Unsupported('load of %r' % (t,))

    def store(self, p, v, ty):
        if isinstance(p, PIte):
            g = self.g
            for c, q in ((p.c, p.a), (bnot(p.c), p.b)):
                self.g = gand(g, c)
                if self.g is not None:
                    self.store(q, v, ty)
            self.g = g
            return
        if isinstance(p, Undef):
            raise Unsupported('store through an undefined pointer')
        t = ty
        while t[0] == 'n':
            t = self.m.types[t[1]]
        n = self.m.size(t)
        if not isinstance(p, Ptr):
            p = Ptr(None, p)
        if not self.check(p, n, 'write'):
            return
        if p.reg.ro:
            self.oblige('write to a constant (%s)' % p.reg.name, False)
            return
        self.store1(p, v, t)

    def store1(self, p, v, t):
        if t[0] == 's' or t[0] == 'a' or t[0] == 'n':
            while t[0] == 'n':
                t = self.m.types[t[1]]
            if isinstance(v, Undef):
                return
            offs = self.m.struct(t)[0] if t[0] == 's' else [i * self.m.size(t[2]) for i in range(t[1])]
            for i, x in enumerate(v):
                self.store1(Ptr(p.reg, add(64, p.off, offs[i]), p.idx), x, t[1][i] if t[0] == 's' else t[2])
            return
        n = self.m.size(t)
        if t == ('i', 1):
            v = ite(self.defv(v, t), 1, 0, 8)
        elif t[0] == 'i' and t[1] != 8 * n:
            v = zext(t[1], 8 * n, self.defv(v, t))
        elif t[0] == 'v' and isinstance(v, Vec) and v.w == 0:
            raise Unsupported('store of an i1 vector')
        self.mem.write(p.reg, self.g, p.idx, p.off, n, v)

    def alloc(self, name, size, base='undef', align=16):
        r = Region(name, size, base, self.g, align=align)
        if not isinstance(size, int):
            self.oblige('allocation size', True)
        if self.binders:
            r.fam = len(self.binders)
            if len(self.binders) > 1:
                raise Unsupported('allocation under nested loops')
            r.kb = self.binders[-1]
            return Ptr(r, 0, self.binders[-1])
        return Ptr(r)

    def memcpy(self, d, s, n, move=False):
        if isinstance(d, PIte) or isinstance(s, PIte):
            p = d if isinstance(d, PIte) else s
            g = self.g
            for c, q in ((p.c, p.a), (bnot(p.c), p.b)):
                self.g = gand(g, c)
                if self.g is not None:
                    self.memcpy(q if p is d else d, q if p is s else s, n, move)
            self.g = g
            return
        if isinstance(n, int) and n == 0:
            return
        if isinstance(n, int):
            if not self.check(s, n, 'copy source read') or not self.check(d, n, 'copy write'):
                return
        else:
            for p, w in ((s, 'copy source read'), (d, 'copy write')):
                if p.reg is None:
                    self.oblige(w + ' through a null pointer', eq(64, n, 0))
                    return
                nz = eq(64, n, 0)
                c = b_and(bnot(ult(64, p.reg.size, n)), bnot(ult(64, sub(64, p.reg.size, n), p.off)))
                self.oblige('%s stays inside %s' % (w, p.reg.name), b_or(nz, c))
                if p.reg.freed is not False:
                    self.oblige('%s of freed memory' % w, b_or(nz, bnot(p.reg.freed)))
        if d.reg.ro:
            self.oblige('write to a constant', False)
            return
        if not move and d.reg is s.reg and (d.idx is None or same(d.idx, s.idx)):
            ov = b_or(bnot(ult(64, d.off, add(64, s.off, n))), bnot(ult(64, s.off, add(64, d.off, n))))
            self.oblige('memcpy of disjoint ranges', b_or(ov, eq(64, d.off, s.off)))
        # small concrete copies go cell by cell
        if isinstance(n, int) and isinstance(d.off, int) and isinstance(s.off, int) and d.idx is None and n <= 4096:
            self.copy_cells(d, s, n)
            return
        if self.mem.rlog is not None:
            self.mem.rlog.append((s.reg, s.idx, s.off, n, self.g))
        self.mem.block(d.reg, self.g, d.idx, d.off, 'cp', n, None, (s.reg, self.mem.snap(s.reg), s.idx, s.off))

    def copy_cells(self, d, s, n):
        """split along the cells of the source"""
        if s.reg.lazy:
            s.reg.lazy(s.reg)
        out = []
        o = s.off
        end = s.off + n
        top = s.reg.layers[-1] if s.reg.layers and isinstance(s.reg.layers[-1], dict) else {}
        while o < end:
            e = top.get(o)
            if e is not None and o + e[0] <= end:
                w = e[0]
            else:
                w = 8 if end - o >= 8 and (o - s.off) % 8 == 0 else 4 if end - o >= 4 and (o - s.off) % 4 == 0 else 1
                for j in range(1, w):
                    if o + j in top:
                        w = j
                        break
                if s.reg.base == 'sym' and not top:
                    w = min(s.reg.elem, end - o)
                    if (o % s.reg.elem):
                        w = 1
            v = self.mem.read(s.reg, s.idx, o, w, ptr=False)
            out.append((o - s.off, w, v))
            o += w
        for o, w, v in out:
            self.mem.write(d.reg, self.g, d.idx, d.off + o, w, v)

    def memset(self, d, v, n):
        if isinstance(d, PIte):
            g = self.g
            for c, q in ((d.c, d.a), (bnot(d.c), d.b)):
                self.g = gand(g, c)
                if self.g is not None:
                    self.memset(q, v, n)
            self.g = g
            return
        if isinstance(n, int):
            if n == 0:
                return
            if not self.check(d, n, 'fill'):
                return
            if n <= 64 and isinstance(d.off, int) and d.idx is None and isinstance(v, int):
                o = 0
                while o < n:
                    w = 8 if n - o >= 8 else 4 if n - o >= 4 else 1
                    self.mem.write(d.reg, self.g, d.idx, d.off + o, w, int.from_bytes(bytes([v]) * w, 'little'))
                    o += w
                return
        else:
            if d.reg is None:
                self.oblige('fill through a null pointer', eq(64, n, 0))
                return
            nz = eq(64, n, 0)
            c = b_and(bnot(ult(64, d.reg.size, n)), bnot(ult(64, sub(64, d.reg.size, n), d.off)))
            self.oblige('fill stays inside %s' % d.reg.name, b_or(nz, c))
        self.mem.block(d.reg, self.g, d.idx, d.off, 'fill', n, v)


def lane_w(t):
    if t == ('i', 1):
        return 0
    if t[0] == 'i':
        return t[1]
    if t[0] == 'p':
        return -1
    raise Unsupported('vector of %r' % (t,))


def decode(s):
    s = s[s.index('"') + 1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def parse_float(s):
    if s.startswith('0x') and s[2] not in 'KLMHR':
        import struct
        return struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
    return float(s)
