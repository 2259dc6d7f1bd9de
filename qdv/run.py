"""Control flow: blocks, loops and their summaries, calls."""
import re
import sys
import z3
from . import ir
from .val import *
from .mem import *
from .sx import *

sys.setrecursionlimit(100000)


class Throw(Exception):
    pass


class Machine(Exec):
    # ---------------------------------------------------------- functions
    def run(self, name, args, depth=0):
        """runs a function under self.g: (value, guard of returning, [(guard, exception)])"""
        f = self.m.func(name)
        if f is None:
            raise Unsupported('no body: ' + self.dem(name))
        if not hasattr(f, 'phis'):
            top, loops, pred, succ = ir.analyse(f)
            f.phis = {b: [i for i in f.blocks[b] if i.op == 'phi'] for b in f.order}
        self.funcs_used.setdefault(name, 'executed')
        fr = Frame(f)
        for (t, n), a in zip(f.params, args):
            fr.env[n] = a
        g = self.g
        self.stack.append(fr)
        if len(self.stack) > 120:
            raise Unsupported('recursion')
        top = ir.analyse(f)[0]
        fr.edges[f.order[0]] = [Rec(g, {}, None)]
        self.level(fr, top)
        self.stack.pop()
        self.g = g
        rets = [(a, b) for a, b in fr.rets if a is not None]
        gr = gmerge([a for a, b in rets])
        if gr is not None and gsame(gr, g):
            gr = g
        v = None
        if rets and f.ret != ir.VOID:
            com = ginter([a for a, b in rets])
            v = rets[-1][1]
            for a, b in rets[-2::-1]:
                v = vite(gz(gminus(a, com)), b, v, f.ret[1] if f.ret[0] == 'i' else None)
        return v, gr, fr.exc

    def boot(self):
        """dynamic initialisation of the globals"""
        LEAF_SEXT[0] = bool(self.opts.get('leaf_sext'))
        for n in self.m.rawf:
            if re.match(r'@"?__cxx_global_var_init', n):
                self.run(n, [])
                self.funcs_used.pop(n, None)

    def dem(self, n):
        return self.names.get(n, n)

    def level(self, fr, order):
        for nd in order:
            if isinstance(nd, ir.Loop):
                self.loop(fr, nd)
            else:
                self.block(fr, nd)

    def merge(self, recs):
        recs = [r for r in recs if r.g is not None]
        if not recs:
            return None, None
        g = gmerge([r.g for r in recs])
        com = ginter([r.g for r in recs])
        phi = dict(recs[-1].phi)
        for r in recs[-2::-1]:
            c = gz(gminus(r.g, com))
            for k in phi:
                x, y = r.phi[k], phi[k]
                w = self.phi_w(k) if type(x) is int and type(y) is int and x != y else None
                phi[k] = vite(c, x, y, w)
        return g, phi

    def phi_w(self, k):
        t = self.phitypes[(self.stack[-1].f.name, k)]
        return t[1]

    phitypes = {}

    def edge(self, fr, b, s, g):
        if g is None:
            return
        phi = {}
        for i in fr.f.phis[s]:
            self.phitypes[(fr.f.name, i.res)] = i.ty
            for v, p in i.a:
                if p == b:
                    phi[i.res] = self.val(fr, i.ty, v)
                    break
        if '__exc' in fr.env:
            phi['__exc'] = fr.env['__exc']
        fr.edges.setdefault(s, []).append(Rec(g, phi, b))

    def block(self, fr, b):
        recs = fr.edges.pop(b, None)
        if not recs:
            return
        if any('__exc' in r.phi for r in recs):
            for r in recs:
                r.phi.setdefault('__exc', UNDEF)
        g, phi = self.merge(recs)
        if g is None:
            return
        self.enter(fr, b, g, phi)

    def enter(self, fr, b, g, phi):
        fr.env.update(phi)
        f = fr.f
        insts = f.blocks[b]
        if g and any(i.op in ('call', 'invoke') for i in insts) and self.heavy(insts) and not self.feasible(g):
            return
        self.g = g
        for i in insts:
            if i.op == 'phi':
                continue
            self.inst_count += 1
            if self.deadline and (self.inst_count & 1023) == 0 and time.time() > self.deadline:
                raise Unsupported('out of time')
            self.step(fr, b, i)
            if self.g is None:
                return

    def assert_block(self, f, b):
        d = f.__dict__.setdefault('asserts', {})
        if b not in d:
            d[b] = None
            for x in f.blocks[b]:
                if x.op == 'call' and x.a[0] == ('g', '@__assert_fail'):
                    d[b] = x
                elif x.op in ('store', 'invoke') or x.op == 'call' and not (x.a[0][0] == 'g' and x.a[0][1].startswith('@llvm.lifetime')):
                    if d[b] is None:
                        break
        return d[b]

    def assert_text(self, fr, inst):
        from . import intrin
        try:
            return 'assert(%s)' % intrin.cstr(self, self.val(fr, ir.PTR, inst.a[1][0][1]))
        except Exception:
            return 'assert'

    def heavy(self, insts):
        for i in insts:
            if i.op in ('call', 'invoke'):
                c = i.a[0]
                if c[0] == 'g' and c[1].startswith('@llvm.'):
                    continue
                return True
        return False

    # ---------------------------------------------------------- instructions
    def step(self, fr, b, i):
        op = i.op
        env = fr.env
        V = self.vald
        if op in ir.BIN:
            x, y = V(fr, i.ty, i.a[0]), V(fr, i.ty, i.a[1])
            r = env[i.res] = self.binop(op, i.ty, x, y)
            if i.x == 'nsw' and (NSW or LEAF_SEXT[0]) and i.ty == ('i', 32) and op in ('add', 'sub', 'mul') and isinstance(r, z3.ExprRef):
                # no signed overflow: the extension of the result is the result of the extensions
                wx, wy = known_sext(x), known_sext(y)
                if wx is not None and wy is not None and (r.get_id(), 64) not in NSW and (op != 'mul' or isinstance(x, int) or isinstance(y, int)):
                    NSW[(r.get_id(), 64)] = (r, {'add': add, 'sub': sub, 'mul': mul}[op](64, wx, wy))
        elif op == 'load':
            env[i.res] = self.load(self.val(fr, ir.PTR, i.a[0]), i.ty)
        elif op == 'store':
            self.store(self.val(fr, ir.PTR, i.a[1]), self.val(fr, i.ty, i.a[0]), i.ty)
        elif op == 'atomicrmw' and i.x in ('add', 'sub', 'and', 'or', 'xor'):
            # one thread: a read followed by a write
            at = self.val(fr, ir.PTR, i.a[0])
            env[i.res] = self.load(at, i.ty)
            self.store(at, self.binop(i.x, i.ty, env[i.res], V(fr, i.ty, i.a[1])), i.ty)
        elif op == 'getelementptr':
            env[i.res] = self.gep(i.ty, [(t, V(fr, t, v)) for t, v in i.a])
        elif op == 'icmp':
            env[i.res] = self.icmp(i.x, i.ty, V(fr, i.ty, i.a[0]), V(fr, i.ty, i.a[1]))
        elif op in ir.CAST:
            env[i.res] = self.cast(op, i.x, V(fr, i.x, i.a[0]), i.ty)
        elif op == 'br':
            if i.x is None:
                self.edge(fr, b, i.a[0], self.g)
            else:
                c = V(fr, ('i', 1), i.x)
                if i.a[0] == i.a[1]:
                    self.edge(fr, b, i.a[0], self.g)
                    return
                for bad, good, ok in ((i.a[0], i.a[1], bnot(c)), (i.a[1], i.a[0], c)):
                    m = self.assert_block(fr.f, bad)
                    if m:
                        # an assertion: an obligation here, a fact from here on
                        if ok is not True:
                            self.oblige(self.assert_text(fr, m), ok)
                            self.fact(b_or(bnot(gz(self.g)), ok))
                        self.edge(fr, b, good, self.g if ok is not False else None)
                        return
                if not isinstance(c, bool):
                    c = self.decide(c, 100)
                    if isinstance(c, bool):
                        self.soft.add((fr.f.name, b))
                self.edge(fr, b, i.a[0], gand(self.g, c))
                self.edge(fr, b, i.a[1], gand(self.g, bnot(c)))
        elif op == 'switch':
            v = V(fr, i.ty, i.a[0])
            rest = self.g
            by = {}
            for c, s in i.a[2]:
                e = eq(i.ty[1], v, c & mask(i.ty[1]))
                by.setdefault(s, []).append(e)
                rest = gand(rest, bnot(e))
            for s, es in by.items():
                if s == i.a[1]:
                    rest = gmerge([rest, gand(self.g, b_or(*es))])
                else:
                    self.edge(fr, b, s, gand(self.g, b_or(*es)))
            self.edge(fr, b, i.a[1], rest)
        elif op == 'ret':
            fr.rets.append((self.g, self.val(fr, i.ty, i.a[0]) if i.a else None))
        elif op in ('call', 'invoke'):
            self.call(fr, b, i)
        elif op == 'select':
            c = V(fr, i.x, i.a[0])
            x, y = self.val(fr, i.ty, i.a[1]), self.val(fr, i.ty, i.a[2])
            if isinstance(c, Vec):
                x, y = self.defv(x, i.ty), self.defv(y, i.ty)
                env[i.res] = Vec([vite(k, p, q, x.w) for k, p, q in zip(c.e, x.e, y.e)], x.w)
            else:
                if not isinstance(c, bool):
                    c = self.decide(c, 60)
                env[i.res] = vite(c, x, y, i.ty[1] if i.ty[0] == 'i' and i.ty[1] > 1 else None)
        elif op == 'alloca':
            n = 1
            if i.a is not None:
                n = V(fr, i.a[0], i.a[1])
            sz = mul(64, n, self.m.size(i.ty))
            g = self.g
            r = Region('%s in %s' % (i.res, fr.f.name[:40]), sz, 'undef', g, align=32)
            fr.env[i.res] = Ptr(r)
        elif op == 'extractvalue':
            v = self.val(fr, i.ty, i.a[0])
            for k in i.a[1]:
                if isinstance(v, Undef):
                    break
                v = v[k]
            env[i.res] = v
        elif op == 'insertvalue':
            v = self.val(fr, i.ty, i.a[0])
            env[i.res] = self.insertval(i.ty, v, self.val(fr, i.x, i.a[1]), i.a[2])
        elif op == 'extractelement':
            v = V(fr, i.ty, i.a[0])
            k = V(fr, i.x, i.a[1])
            if not isinstance(k, int):
                raise Unsupported('symbolic lane')
            env[i.res] = v.e[k]
        elif op == 'insertelement':
            v = self.val(fr, i.ty, i.a[0])
            if isinstance(v, Undef):
                v = Vec([UNDEF] * i.ty[1], lane_w(i.ty[2]))
            k = V(fr, i.x, i.a[2])
            if not isinstance(k, int):
                raise Unsupported('symbolic lane')
            e = list(v.e)
            e[k] = self.val(fr, i.ty[2], i.a[1])
            env[i.res] = Vec(e, v.w)
        elif op == 'shufflevector':
            a, c, m = self.val(fr, i.ty, i.a[0]), self.val(fr, i.ty, i.a[1]), self.val(fr, i.x, i.a[2])
            n = i.ty[1]
            ae = a.e if isinstance(a, Vec) else [UNDEF] * n
            ce = c.e if isinstance(c, Vec) else [UNDEF] * n
            al = ae + ce
            me = m.e if isinstance(m, Vec) else [0] * i.x[1]
            env[i.res] = Vec([UNDEF if isinstance(k, Undef) else al[k] for k in me], lane_w(i.ty[2]))
        elif op == 'freeze':
            env[i.res] = V(fr, i.ty, i.a[0])
        elif op == 'unreachable':
            self.g = None
        elif op == 'landingpad':
            p = env.get('__exc')
            if p is None:
                raise Unsupported('landing pad without an exception')
            env[i.res] = (p, self.selector(p, i.a))
        elif op == 'resume':
            v = self.val(fr, i.a[0][0], i.a[0][1])
            fr.exc.append((self.g, v[0]))
            self.g = None
        elif op == 'fence':
            pass
        elif op == 'fcmp':
            x, y = V(fr, i.ty, i.a[0]), V(fr, i.ty, i.a[1])
            if isinstance(x, float) and isinstance(y, float):
                env[i.res] = {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[i.x[1:]]
            else:
                raise Unsupported('floating point')
        elif op == 'fneg':
            env[i.res] = -V(fr, i.ty, i.a[0])
        elif op == 'asm':
            raise Unsupported('inline assembly')
        else:
            raise Unsupported('instruction ' + op)

    def insertval(self, ty, v, x, idx):
        while ty[0] == 'n':
            ty = self.m.types[ty[1]]
        n = len(ty[1]) if ty[0] == 's' else ty[1]
        e = [UNDEF] * n if isinstance(v, Undef) else list(v)
        k = idx[0]
        if len(idx) > 1:
            e[k] = self.insertval(ty[1][k] if ty[0] == 's' else ty[2], e[k], x, idx[1:])
        else:
            e[k] = x
        return tuple(e)

    # ---------------------------------------------------------- exceptions
    def tid(self, name):
        d = self.__dict__.setdefault('tids', {})
        return d.setdefault(name, len(d) + 1)

    def bases(self, ti):
        """a typeinfo and its bases, from the constants in the module"""
        out, todo = [], [ti]
        while todo:
            t = todo.pop()
            if t in out:
                continue
            out.append(t)
            if t in self.m.globals:
                todo += [x for x in re.findall(r'@_ZTI[\w$.]+', self.m.globals[t]) if x != t]
        known = {'@_ZTISt13runtime_error': '@_ZTISt9exception', '@_ZTISt11logic_error': '@_ZTISt9exception', '@_ZTISt12domain_error': '@_ZTISt11logic_error',
                 '@_ZTISt16invalid_argument': '@_ZTISt11logic_error', '@_ZTISt9bad_alloc': '@_ZTISt9exception', '@_ZTISt12length_error': '@_ZTISt11logic_error',
                 '@_ZTISt12out_of_range': '@_ZTISt11logic_error', '@_ZTISt14overflow_error': '@_ZTISt13runtime_error', '@_ZTISt8bad_cast': '@_ZTISt9exception'}
        i = 0
        while i < len(out):
            b = known.get(out[i])
            if b and b not in out:
                out.append(b)
            i += 1
        return out

    def selector(self, p, clauses):
        if isinstance(p, PIte):
            return ite(p.c, self.selector(p.a, clauses), self.selector(p.b, clauses), 32)
        if isinstance(p, Undef):
            return UNDEF
        bs = self.bases(getattr(p.reg, 'tinfo', None) or '?')
        for k, n in clauses:
            if k == 'catch':
                if n == 'null':
                    return self.tid('null')
                if n in bs:
                    return self.tid(n)
        return 0

    def throw(self, ptr):
        fr = self.stack[-1]
        fr.exc.append((self.g, ptr))
        self.g = None

    def new_exc(self, tinfo):
        r = Region('exception', 64, 'undef', self.g)
        r.tinfo = tinfo
        return Ptr(r)

    # ---------------------------------------------------------- calls
    def call(self, fr, b, i):
        callee, argl = i.a
        c = self.val(fr, ir.PTR, callee)
        args = [(t, self.val(fr, t, v)) for t, v in argl if True]
        n_exc = len(fr.exc)
        g_in = self.g
        v = self.dispatch(fr, c, args, i)
        new_exc = fr.exc[n_exc:]
        if i.res is not None:
            fr.env[i.res] = v
        if i.op == 'invoke':
            del fr.exc[n_exc:]
            new_exc = [(g, p) for g, p in new_exc if g is not None]
            if new_exc:
                ge = gmerge([g for g, p in new_exc])
                com = ginter([g for g, p in new_exc])
                p = new_exc[-1][1]
                for g, q in new_exc[-2::-1]:
                    p = vite(gz(gminus(g, com)), q, p)
                old = fr.env.get('__exc')
                fr.env['__exc'] = p
                self.edge(fr, b, i.x[1], ge)
                if old is None:
                    del fr.env['__exc']
                else:
                    fr.env['__exc'] = old
            if self.g is not None:
                self.edge(fr, b, i.x[0], self.g)

    def dispatch(self, fr, c, args, i):
        if isinstance(c, PIte):
            g = self.g
            self.g = gand(g, c.c)
            va = vb = UNDEF
            ga = gb = None
            if self.g is not None:
                va = self.dispatch(fr, c.a, args, i)
                ga = self.g
            self.g = gand(g, bnot(c.c))
            if self.g is not None:
                vb = self.dispatch(fr, c.b, args, i)
                gb = self.g
            self.g = gmerge([x for x in (ga, gb) if x is not None])
            if va is None:
                return None
            return vite(c.c, va, vb, i.ty[1] if i.ty[0] == 'i' else None)
        if not isinstance(c, Ptr) or c.reg is None or not c.reg.func:
            raise Unsupported('call through an unknown pointer')
        return self.invoke(fr, c.reg.func, args, i)

    def invoke(self, fr, name, args, i):
        h = self.subcache.get(name)
        if h is None:
            h = False
            d = self.dem(name)
            for rx, fn in self.subst:
                if rx.search(d):
                    h = fn
                    break
            self.subcache[name] = h
        if h:
            self.funcs_used.setdefault(name, 'contract')
            self.target = (fr, name, args)
            return h(self, [self.defv(v, t) for t, v in args], i)
        return self.invoke1(fr, name, args, i)

    def plain(self, i):
        """from a substitution: the call is executed after all"""
        fr, name, args = self.target
        self.funcs_used[name] = 'executed'
        return self.invoke1(fr, name, args, i)

    def invoke1(self, fr, name, args, i):
        n = name[1:]
        if n.startswith('llvm.'):
            from . import intrin
            return intrin.llvm(self, n, args, i)
        if n.startswith('__qdv_'):
            from . import intrin
            return intrin.qdv(self, n, args, i)
        if name in self.m.rawf:
            ext = self.external(n)
            if ext is not None:
                return ext(self, args, i)
            # recursion is followed only while it can happen
            if sum(1 for x in self.stack if x.f.name == name) >= 1 and not self.feasible(self.g):
                self.g = None
                return UNDEF
            g0 = self.g
            v, gr, exc = self.run(name, [a for t, a in args])
            fr.exc += [(g, p) for g, p in exc if g is not None]
            self.g = gr
            return v
        ext = self.external(n)
        if ext is None:
            raise Unsupported('external function ' + self.dem(name)[:150])
        return ext(self, args, i)

    def external(self, n):
        from . import intrin
        return intrin.EXT.get(n) or intrin.ext_rule(n)

    # ---------------------------------------------------------- loops
    def mark(self, fr):
        m = {}
        self.mem.marks.append(m)
        return (m, len(self.facts), len(self.obs), {k: list(v) for k, v in fr.edges.items()}, len(fr.rets), len(fr.exc), set(self.seen_ob), Region.cnt, [(r, r.freed) for r, _ in getattr(self, 'freedlog', [])])

    def rollback(self, fr, mk, keep=False):
        m = mk[0]
        for reg, layers in m.items():
            reg.layers = list(layers)
            reg.frozen = True
        del self.facts[mk[1]:]
        del self.obs[mk[2]:]
        fr.edges = {k: list(v) for k, v in mk[3].items()}
        del fr.rets[mk[4]:]
        del fr.exc[mk[5]:]
        self.seen_ob = set(mk[6])
        fl = getattr(self, 'freedlog', [])
        for r, old in fl[len(mk[8]):]:
            r.freed = old
        if fl:
            del fl[len(mk[8]):]
        if not keep:
            self.drop_mark(mk)
        else:
            self.drop_mark(mk)
            self.mem.marks.append(m)
            m.clear()

    def drop_mark(self, mk):
        for i, m in enumerate(self.mem.marks):
            if m is mk[0]:
                del self.mem.marks[i:]
                return

    def commit(self, mk):
        self.drop_mark(mk)

    def body(self, fr, L, g, phi):
        """one iteration: records of the back edges"""
        fr.edges[L.header] = []
        first = True
        for nd in L.order:
            if first:
                first = False
                fr.edges.pop(L.header)
                if isinstance(nd, ir.Loop):
                    raise Unsupported('shared loop header')
                self.enter(fr, nd, g, phi)
            elif isinstance(nd, ir.Loop):
                self.loop(fr, nd)
            else:
                self.block(fr, nd)
        return fr.edges.pop(L.header, [])

    def loop(self, fr, L):
        recs = fr.edges.pop(L.header, None)
        if not recs:
            return
        g, phi = self.merge(recs)
        if g is None:
            return
        if g and not self.feasible(g):
            return
        mk = self.mark(fr)
        logs = (self.mem.wlog, self.mem.rlog)
        nw, nr = len(logs[0]) if logs[0] is not None else 0, len(logs[1]) if logs[1] is not None else 0
        force = self.opts.get('unroll', lambda f, L: False)(fr.f, L)
        err = None
        depth = len(self.stack)
        exitb = {(fr.f.name, b) for b in L.blocks if any(x not in L.blocks for x in ir.succs(fr.f, b))}
        self.soft -= exitb
        soft = False
        try:
            latch = self.body(fr, L, g, phi)
            soft = bool(self.soft & exitb)   # whether to go on was found by the solver
            gl = gmerge([r.g for r in latch]) if latch else None
        except Unsupported as e:
            err = e
            del self.stack[depth:]
            gl = ()
            if not g:
                gl = ('x',)
        if err is None and (gl is None or (gsame(gl, g) and not soft) or force):
            self.commit(mk)
            self.loops_unrolled += 1
            self.unroll(fr, L, g, latch)
            return
        # symbolic: summarise
        self.rollback(fr, mk, keep=True)
        if logs[0] is not None:
            del logs[0][nw:]
            del logs[1][nr:]
        try:
            self.summarise(fr, L, g, phi)
            self.commit(mk)
            self.loops_summarised += 1
            return
        except Unsupported as e2:
            if self.opts.get('trace'):
                print('summary of %s in %s failed: %s' % (L.header, self.dem(fr.f.name)[:80], e2))
            del self.stack[depth:]
            self.rollback(fr, mk)
            self.mem.wlog, self.mem.rlog = logs
            if logs[0] is not None:
                del logs[0][nw:]
                del logs[1][nr:]
            if err:
                raise Unsupported('%s; summary: %s' % (err, e2))
            why = e2
        # unroll while another iteration is possible
        latch = self.body(fr, L, g, phi)
        self.loops_unrolled += 1
        self.unroll(fr, L, g, latch, limit=self.opts.get('limit', 70), why=why)

    def unroll(self, fr, L, g, latch, limit=None, why=None):
        n = 1
        gp = g
        while latch:
            gl, phi = self.merge(latch)
            if gl is None:
                return
            if not gsame(gl, gp):
                if gl and not self.feasible(gl):
                    return
                n += 1
                if limit is None:
                    limit = self.opts.get('limit', 70)
                if n > limit:
                    raise Unsupported('loop %s in %s: no summary (%s) and more than %d iterations' % (L.header, self.dem(fr.f.name)[:80], why, limit))
            gp = gl
            latch = self.body(fr, L, gl, phi)

    # ---- summaries
    def summarise(self, fr, L, g0, phi0):
        from . import loops
        loops.summarise(self, fr, L, g0, phi0)


def gsame(a, b):
    if a is None or b is None:
        return a is b
    return len(a) == len(b) and all(any(x.eq(y) for y in b) for x in a)
