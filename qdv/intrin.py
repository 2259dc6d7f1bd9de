"""Intrinsics, external functions and the vocabulary of the contracts."""
import re
import z3
from . import ir
from .val import *
from .mem import *
from .sx import *


def lanes(v):
    return v.e if isinstance(v, Vec) else [v]


def mapv(f, *vs):
    if any(isinstance(v, Vec) for v in vs):
        w = [v.w for v in vs if isinstance(v, Vec)][0]
        return Vec([f(w, *t) for t in zip(*[v.e for v in vs])], w)
    return None


def bswap(w, v):
    return concat([(extract(w, i + 7, i, v), 8) for i in range(0, w, 8)])


def minmax(w, a, b, lt):
    return ite(lt(w, a, b), a, b, w)


def llvm(ex, n, args, i):
    vs = [v for t, v in args]
    base = n.split('.')[1]
    if base in ('lifetime', 'dbg', 'assume', 'experimental', 'invariant', 'donothing', 'prefetch', 'var', 'sideeffect'):
        return None
    if base in ('expect',):
        return vs[0]
    if base == 'is':
        return False
    if base == 'objectsize':
        return mask(64)
    if base == 'stacksave':
        return Ptr(None, 0)
    if base == 'stackrestore':
        return None
    if base == 'trap':
        ex.oblige('trap', False)
        ex.g = None
        return None
    if base in ('memcpy', 'memmove'):
        ex.memcpy(ptr_(vs[0]), ptr_(vs[1]), ex.defv(vs[2], args[2][0]), move=base == 'memmove')
        return None
    if base == 'memset':
        ex.memset(ptr_(vs[0]), ex.defv(vs[1], ('i', 8)), ex.defv(vs[2], args[2][0]))
        return None
    if base == 'eh':
        if 'typeid' in n:
            return ex.tid(vs[0].reg.name)
    vs = [ex.defv(v, t) if not isinstance(v, Vec) else v for (t, _), v in zip(args, vs)]
    t = i.ty
    while t[0] == 'n':
        t = ex.m.types[t[1]]
    w = t[1] if t[0] == 'i' else None

    def each(f, *v):
        r = mapv(f, *v)
        return r if r is not None else f(w, *v)
    if base in ('umin', 'umax', 'smin', 'smax'):
        lt = ult if base[0] == 'u' else slt
        if base.endswith('min'):
            return each(lambda w, a, b: minmax(w, a, b, lt), *vs)
        return each(lambda w, a, b: minmax(w, a, b, lambda w, x, y: lt(w, y, x)), *vs)
    if base == 'abs':
        return each(lambda w, a, *_: ite(slt(w, a, 0), sub(w, 0, a), a, w), vs[0]) if True else None
    if base == 'bswap':
        return each(bswap, *vs)
    if base == 'bitreverse':
        return each(lambda w, v: concat([(extract(w, j, j, v), 1) for j in range(w)]), *vs)
    if base == 'ctpop':
        def f(w, v):
            r = 0
            for j in range(w):
                r = add(w, r, zext(1, w, extract(w, j, j, v)))
            return r
        return each(f, *vs)
    if base in ('ctlz', 'cttz'):
        def f(w, v):
            r = w
            for j in (range(w) if base == 'ctlz' else range(w - 1, -1, -1)):
                r = ite(eq(1, extract(w, j, j, v), 1), (w - 1 - j) if base == 'ctlz' else j, r, w)
            return r
        return each(f, vs[0])
    if base in ('fshl', 'fshr'):
        def f(w, a, b, c):
            if isinstance(c, int):
                s = c % w
                x = concat([(a, w), (b, w)])
                return extract(2 * w, 2 * w - 1 - s, w - s, x) if base == 'fshl' else extract(2 * w, w - 1 + s, s, x)
            raise Unsupported('funnel shift by a symbolic amount')
        return each(f, *vs)
    if base == 'usub' and '.sat.' in n:
        return each(lambda w, a, b: ite(ex.decide(ult(w, a, b), 60), 0, sub(w, a, b), w), *vs)
    if base == 'uadd' and '.sat.' in n:
        return each(lambda w, a, b: ite(ult(w, add(w, a, b), a), mask(w), add(w, a, b), w), *vs)
    if base in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and 'with.overflow' in n:
        a, b = vs
        w = args[0][0][1]
        if base == 'uadd':
            s = add(w, a, b)
            return (s, ult(w, s, a))
        if base == 'usub':
            return (sub(w, a, b), ult(w, a, b))
        if base == 'umul':
            p = mul(2 * w, zext(w, 2 * w, a), zext(w, 2 * w, b))
            return (trunc(2 * w, w, p), bnot(eq(w, extract(2 * w, 2 * w - 1, w, p), 0)))
        raise Unsupported(n)
    if base == 'vector' and 'reduce' in n:
        op = n.split('.')[3]
        v = vs[0]
        r = v.e[0]
        for x in v.e[1:]:
            r = {'add': add, 'mul': mul, 'and': band, 'or': bor, 'xor': bxor}[op](v.w, r, x) if v.w else ex.binop1(op, 0, r, x)
        return r
    if base == 'x86':
        return x86(ex, n, vs, i)
    raise Unsupported('intrinsic ' + n)


def ptr_(v):
    if isinstance(v, Undef):
        raise Unsupported('undefined pointer')
    return v if isinstance(v, (Ptr, PIte)) else Ptr(None, v)


def x86(ex, n, vs, i):
    if n in ('llvm.x86.sse41.ptestz', 'llvm.x86.avx.ptestz.256', 'llvm.x86.avx.ptestc.256', 'llvm.x86.sse41.ptestc'):
        a, b = vs
        if 'ptestc' in n:
            z = [eq(a.w, band(a.w, bxor(a.w, x, mask(a.w)), y), 0) for x, y in zip(a.e, b.e)]
        else:
            z = [eq(a.w, band(a.w, x, y), 0) for x, y in zip(a.e, b.e)]
        return ite(b_and(*z), 1, 0, 32)
    if 'pmulh.w' in n or 'pmulhu.w' in n:
        a, b = vs
        f = zext if 'pmulhu' in n else sext
        return Vec([extract(32, 31, 16, mul(32, f(16, 32, x), f(16, 32, y))) for x, y in zip(a.e, b.e)], 16)
    if 'pmulu.dq' in n or 'pmuludq' in n:
        a, b = vs
        return Vec([mul(64, zext(32, 64, a.e[k]), zext(32, 64, b.e[k])) for k in range(0, len(a.e), 2)], 64)
    if 'pshuf.b' in n:
        a, b = vs
        out = []
        for k in range(len(a.e)):
            c = b.e[k]
            lo = k & ~15
            if not isinstance(c, int):
                raise Unsupported('symbolic shuffle')
            out.append(0 if c & 128 else a.e[lo + (c & 15)])
        return Vec(out, 8)
    if 'pblendvb' in n:
        return Vec([ite(eq(1, extract(8, 7, 7, c), 1), y, x, 8) for x, y, c in zip(vs[0].e, vs[1].e, vs[2].e)], 8)
    if 'packusdw' in n or 'packuswb' in n or 'packssdw' in n:
        raise Unsupported(n)
    if 'pmovmskb' in n:
        a = vs[0]
        return concat([(0, 32 - len(a.e))] * (1 if len(a.e) < 32 else 0) + [(extract(8, 7, 7, x), 1) for x in a.e[::-1]])
    if re.search(r'ps(ll|rl|ra)i?\.[wdq]', n) and isinstance(vs[1], int):
        op = {'ll': shl, 'rl': lshr, 'ra': ashr}[re.search(r'ps(ll|rl|ra)', n).group(1)]
        return Vec([op(vs[0].w, x, vs[1]) for x in vs[0].e], vs[0].w)
    if 'ldu.dq' in n:
        return ex.load(vs[0], i.ty)
    raise Unsupported('intrinsic ' + n)


# ---------------------------------------------------------------- contracts' vocabulary
def cstr(ex, p):
    out = []
    if p.reg.lazy:
        p.reg.lazy(p.reg)
    o = p.off
    while True:
        c = ex.mem.read(p.reg, None, o, 1)
        if not isinstance(c, int) or c == 0:
            return bytes(out).decode()
        out.append(c)
        o += 1


def qdv(ex, n, args, i):
    vs = [v for t, v in args]
    k = n[6:]
    if k in ('u8', 'u16', 'u32', 'u64', 'u128', 'bool'):
        nm = cstr(ex, vs[0])
        w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'bool': 0}[k]
        ex.ghosts = getattr(ex, 'ghosts', {})
        x = z3.BitVec('in_' + nm, w) if w else z3.Bool('in_' + nm)
        if nm in ex.ghosts:
            x = ex.fresh(w, 'in_' + nm)
        ex.ghosts[nm] = x
        if w == 128 and i.ty[0] != 'i':
            return (unval(z3.Extract(63, 0, x)), unval(z3.Extract(127, 64, x)))
        return x
    if k == 'assume':
        c = ex.defv(vs[0], ('i', 1))
        c = asbool(c)
        ex.fact(b_or(bnot(gz(ex.g)), c))
        return None
    if k == 'assert':
        c = asbool(ex.defv(vs[0], ('i', 1)))
        nm = cstr(ex, vs[1])
        ex.oblige(nm, c, kind='contract')
        ex.nassert = getattr(ex, 'nassert', 0) + 1
        return None
    if k == 'array':          # bytes, element size, alignment, name
        nb, e, al, nm = vs
        nm = cstr(ex, nm)
        r = Region(nm, nb, 'sym', ex.g, align=al, elem=e)
        r.fn = z3.Function('mem_' + nm, z3.BitVecSort(64), z3.BitVecSort(8 * e))
        if not isinstance(nb, int):
            ex.fact(z3.ULT(nb, 1 << 56))
        return Ptr(r)
    if k == 'bound':          # every element of the array is below the bound
        p, b = vs
        r = p.reg
        w = 8 * r.elem
        if isinstance(b, z3.ExprRef) and b.size() != w:
            b = trunc(b.size(), w, b) if b.size() > w else zext(b.size(), w, b)
        old = ex.axioms.get(r.fn.name())
        ex.axioms[r.fn.name()] = lambda app, b=b, w=w, old=old: ([z3.ULT(app, bv(b, w))] if not (isinstance(b, int) and b > mask(w)) else []) + (old(app) if old else [])
        return None
    if k == 'bufs':           # n buffers of `bytes` bytes: array of n pointers
        cnt, nb, e, al, nm = vs
        nm = cstr(ex, nm)
        fam = Region(nm, nb, 'sym', ex.g, fam=1, align=al, elem=e)
        fam.fn = z3.Function('mem_' + nm, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(8 * e))
        fam.kb = None
        arr = Region(nm + '[]', mul(64, cnt, 8), 'ptrs', ex.g, align=16)
        arr.target = fam
        for x in (nb, cnt):
            if not isinstance(x, int):
                ex.fact(z3.ULT(x, 1 << 40))
        return Ptr(arr)
    if k == 'bufs_bound':
        p, b = vs
        return qdv(ex, '__qdv_bound', [(None, Ptr(p.reg.target)), (None, b)], i)
    if k == 'clone':          # a copy of the present contents of the buffer
        p = vs[0]
        r = Region(p.reg.name + '.old', p.reg.size, p.reg.base, ex.g, fam=p.reg.fam, align=p.reg.align, elem=p.reg.elem)
        r.fn = p.reg.fn
        r.layers = list(ex.mem.snap(p.reg))
        r.frozen = True
        if getattr(p.reg, 'target', None) is not None:
            t = p.reg.target
            r2 = Region(t.name + '.old', t.size, t.base, ex.g, fam=t.fam, align=t.align, elem=t.elem)
            r2.fn, r2.layers, r2.frozen = t.fn, list(ex.mem.snap(t)), True
            r.target = r2
        return Ptr(r, p.off, p.idx)
    if k == 'uf':             # an uninterpreted function of up to four 64-bit arguments
        nm = cstr(ex, vs[0])
        a = [v for v in vs[1:]]
        f = z3.Function(nm, *([z3.BitVecSort(64)] * len(a)), z3.BitVecSort(64))
        return f(*[bv(x, 64) for x in a])
    if k in ('alloc_bytes', 'offset', 'freed') and isinstance(vs[0], PIte):
        p, rest = vs[0], list(args[1:])
        a, b = [qdv(ex, n, [(args[0][0], q)] + rest, i) for q in (p.a, p.b)]
        return bite(p.c, a, b) if k == 'freed' else ite(p.c, a, b, 64)
    if k == 'alloc_bytes':
        p = vs[0]
        return p.reg.size if p.reg else 0
    if k == 'same_object':
        return b_and(pr_same(vs[0], vs[1]))
    if k == 'offset':
        return vs[0].off
    if k == 'freed':
        if not isinstance(vs[0], Ptr):          # not known to be a pointer: either
            ex.nfree = getattr(ex, 'nfree', 0) + 1
            return z3.Bool('freed_%d' % ex.nfree)
        return vs[0].reg.freed if vs[0].reg else False
    if k == 'addr':
        return ex.address(vs[0])
    if k == 'pow2':           # x is a power of two
        x, w = vs[0], args[0][0][1]
        if isinstance(x, int):
            return log2(x) is not None
        return z3.And(x != 0, x & (x - 1) == 0)
    # arithmetical lemmas (true of all integers; used to avoid non-linear reasoning in the solver)
    if k == 'lemma_mul_le':   # a <= A and b <= B imply a*b <= A*B, for constants with A*B < 2^64
        a, b, A, B = vs
        assert isinstance(A, int) and isinstance(B, int) and A * B < 1 << 64
        ex.fact(z3.Implies(z3.And(z3.ULE(bv(a, 64), A), z3.ULE(bv(b, 64), B)), z3.ULE(bv(mul(64, a, b), 64), A * B)))
        return None
    if k == 'lemma_divmod':   # p = q*d + r and r < d imply p/d = q and p%d = r, for a constant d
        p, d, q, r = vs
        assert isinstance(d, int) and d > 0
        ex.fact(z3.Implies(z3.And(z3.ULT(bv(r, 64), d), z3.ULE(bv(q, 64), ((1 << 64) - d) // d), bv(p, 64) == bv(add(64, mul(64, q, d), r), 64)),
                           z3.And(bv(udiv(64, p, d), 64) == bv(q, 64), bv(urem(64, p, d), 64) == bv(r, 64))))
        return None
    if k == 'lemma_unit':     # products modulo m by 0, 1 and m-1, as computed in every width that holds them
        a, b, m = [bv(x, 64) for x in vs]
        for w in (32, 64, 128):
            def e(x):
                return bv(extract(64, w - 1, 0, unval(x)), w) if w < 64 else (bv(zext(64, 128, unval(x)), 128) if w > 64 else x)
            A, B, M = e(a), e(b), e(m)
            p = bv(urem(w, mul(w, unval(A), unval(B)), unval(M)), w)
            fits = z3.BoolVal(True) if w == 128 else z3.And(z3.ULE(a, mask(w // 2)), z3.ULE(b, mask(w // 2)), z3.ULE(m, mask(w // 2)))
            ok = z3.And(fits, m != 0, z3.ULT(b, m))
            ex.fact(z3.Implies(z3.And(ok, a == 0), p == 0))
            ex.fact(z3.Implies(z3.And(ok, a == 1), p == B))
            ex.fact(z3.Implies(z3.And(ok, a == m - 1), p == z3.If(B == 0, B, M - B)))
        return None
    if k == 'reach':
        ex.reach = getattr(ex, 'reach', [])
        ex.reach.append((cstr(ex, vs[0]), ex.g, len(ex.facts)))
        return None
    if k == 'dump':
        print('DUMP', [v if not isinstance(v, z3.ExprRef) else z3.simplify(v) for v in vs])
        return None
    h = ex.opts.get('qdv', {}).get(k)
    if h:
        return h(ex, vs, args, i)
    raise Unsupported('contract word ' + n)


def pr_same(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.reg is b.reg


def asbool(c):
    if isinstance(c, int) and not isinstance(c, bool):
        return bool(c)
    if isinstance(c, z3.ExprRef) and z3.is_bv(c):
        return bnot(eq(c.size(), c, 0))
    return c


# ---------------------------------------------------------------- external functions
def e_new(ex, args, i):
    n = args[0][1]
    if not isinstance(n, int):
        ex.fact(b_or(bnot(gz(ex.g)), ult(64, n, 1 << 47)))   # the allocator gave it
    al = args[1][1] if len(args) > 1 and isinstance(args[1][1], int) else 16
    return ex.alloc('heap', n, align=al)


def e_delete(ex, args, i):
    p = args[0][1]
    free(ex, p)
    return None


def free(ex, p):
    if isinstance(p, PIte):
        g = ex.g
        for c, q in ((p.c, p.a), (bnot(p.c), p.b)):
            ex.g = gand(g, c)
            if ex.g is not None:
                free(ex, q)
        ex.g = g
        return
    if isinstance(p, Undef):
        ex.oblige('release of an undefined pointer', False)
        return
    if p.reg is None:
        if isinstance(p.off, int) and p.off == 0:
            return
        ex.oblige('release of a wild pointer', False)
        return
    r = p.reg
    if r.fam is not None:
        # a member of a family: released under the loop that allocated it
        r.released = getattr(r, 'released', [])
        r.released.append((ex.g, p.idx, list(ex.binders)))
        return
    ex.oblige('release of the start of a block', eq(64, p.off, 0))
    if r.freed is not False:
        ex.oblige('block released twice', bnot(r.freed))
    ex.freedlog = getattr(ex, 'freedlog', [])
    ex.freedlog.append((r, r.freed))
    g = gz(gminus(ex.g, r.g0))
    r.freed = b_or(r.freed, g)
    if r.name not in ('heap', 'aligned') and r.base != 'sym':
        ex.oblige('release of something not allocated (%s)' % r.name, False)


def e_posix_memalign(ex, args, i):
    out, al, n = args[0][1], args[1][1], args[2][1]
    if not isinstance(n, int):
        ex.fact(b_or(bnot(gz(ex.g)), ult(64, n, 1 << 47)))
    if ex.opts.get('memalign_fails'):
        # may fail: returns nonzero and leaves *out alone
        ok = ex.fresh(0, 'memalign_ok')
        g = ex.g
        ex.g = gand(g, ok)
        if isinstance(al, int):
            p = ex.alloc('aligned', n, align=al)
        else:
            p = ex.alloc('aligned', n, align=8)
            p.reg.align_sym = al
        ex.store(out, p, ir.PTR)
        ex.g = g
        return ite(ok, 0, 12, 32)
    p = ex.alloc('aligned', n, align=al if isinstance(al, int) else 8)
    ex.store(out, p, ir.PTR)
    return 0


def e_malloc(ex, args, i):
    return e_new(ex, args, i)


def e_calloc(ex, args, i):
    return ex.alloc('heap', mul(64, args[0][1], args[1][1]), 'zero')


def e_none(ex, args, i):
    return None


def e_assert_fail(ex, args, i):
    try:
        m = cstr(ex, args[0][1])
    except Exception:
        m = '?'
    ex.oblige('assert(%s)' % m, False)
    ex.g = None
    return None


def e_abort(ex, args, i):
    ex.oblige('abort', False)
    ex.g = None
    return None


def e_throw_alloc(ex, args, i):
    r = Region('exception', 128, 'undef', ex.g)
    r.tinfo = None
    return Ptr(r)


def e_throw(ex, args, i):
    p, ti = args[0][1], args[1][1]
    p.reg.tinfo = ti.reg.name
    ex.throw(p)
    return None


def e_begin_catch(ex, args, i):
    return args[0][1]


def thrower(ti):
    def f(ex, args, i):
        ex.throw(ex.new_exc(ti))
        return None
    return f


def e_guard_acquire(ex, args, i):
    p = args[0][1]
    v = ex.load(p, ('i', 8))
    if isinstance(v, int) and v:
        return 0
    return 1


def e_guard_release(ex, args, i):
    ex.store(args[0][1], 1, ('i', 8))
    return None


def e_memcmp(ex, args, i):
    a, b, n = args[0][1], args[1][1], args[2][1]
    if not isinstance(n, int) or n > 4096:
        raise Unsupported('memcmp of a symbolic length')
    r = 0
    for j in range(n - 1, -1, -1):
        x = ex.load(Ptr(a.reg, add(64, a.off, j), a.idx), ('i', 8))
        y = ex.load(Ptr(b.reg, add(64, b.off, j), b.idx), ('i', 8))
        x, y = ex.defv(x, ('i', 8)), ex.defv(y, ('i', 8))
        r = ite(eq(8, x, y), r, ite(ult(8, x, y), mask(32), 1, 32), 32)
    return r


def e_memmove(ex, args, i):
    ex.memcpy(ptr_(args[0][1]), ptr_(args[1][1]), args[2][1], move=True)
    return args[0][1]


def e_memcpy(ex, args, i):
    ex.memcpy(ptr_(args[0][1]), ptr_(args[1][1]), args[2][1])
    return args[0][1]


def e_memset(ex, args, i):
    v = args[1][1]
    ex.memset(ptr_(args[0][1]), trunc(32, 8, v), args[2][1])
    return args[0][1]


def e_bswap32(ex, args, i):
    return bswap(32, args[0][1])


def e_strlen(ex, args, i):
    return len(cstr(ex, args[0][1]))


def e_identity(ex, args, i):
    return args[0][1]


def e_dynamic_cast(ex, args, i):
    """a cast along single, non-virtual inheritance: the run-time type is read from the object"""
    p, dst = args[0][1], args[2][1]
    if not isinstance(p, Ptr):
        raise Unsupported('dynamic_cast of a choice of pointers')
    if p.reg is None:
        return p
    pt = ('p',)
    vp = ex.load(p, pt)
    if not (isinstance(vp, Ptr) and vp.reg is not None):
        raise Unsupported('dynamic_cast of an object of unknown type')
    ti = ex.load(Ptr(vp.reg, sub(64, vp.off, 8)), pt)
    for _ in range(32):
        if ti.reg is dst.reg:
            return p
        kind = ex.load(Ptr(ti.reg, 0), pt)
        k = kind.reg.name if isinstance(kind, Ptr) and kind.reg is not None else ''
        if '17__class_type_info' in k:
            return Ptr(None, 0)
        if '20__si_class_type_info' not in k:
            raise Unsupported('dynamic_cast across ' + k)
        ti = ex.load(Ptr(ti.reg, 16), pt)
    raise Unsupported('dynamic_cast')


EXT = {
    '_Znwm': e_new, '_Znam': e_new, '_ZnwmSt11align_val_t': e_new, '_ZnamSt11align_val_t': e_new, 'malloc': e_malloc, 'calloc': e_calloc,
    '_ZdlPv': e_delete, '_ZdaPv': e_delete, '_ZdlPvm': e_delete, '_ZdaPvm': e_delete, 'free': e_delete, '_ZdlPvSt11align_val_t': e_delete,
    '_ZdlPvmSt11align_val_t': e_delete, '_ZdaPvmSt11align_val_t': e_delete,
    'posix_memalign': e_posix_memalign,
    '__assert_fail': e_assert_fail, 'abort': e_abort, '_ZSt9terminatev': e_abort, '__clang_call_terminate': e_abort, 'exit': e_abort,
    '__cxa_allocate_exception': e_throw_alloc, '__cxa_throw': e_throw, '__cxa_free_exception': e_none,
    '__cxa_begin_catch': e_begin_catch, '__cxa_end_catch': e_none, '__cxa_guard_acquire': e_guard_acquire, '__cxa_guard_release': e_guard_release,
    '__cxa_guard_abort': e_none, '__cxa_atexit': e_none,
    '_ZSt17__throw_bad_allocv': thrower('@_ZTISt9bad_alloc'), '_ZSt28__throw_bad_array_new_lengthv': thrower('@_ZTISt20bad_array_new_length'),
    '_ZSt20__throw_length_errorPKc': thrower('@_ZTISt12length_error'), '_ZSt24__throw_out_of_range_fmtPKcz': thrower('@_ZTISt12out_of_range'),
    '__cxa_throw_bad_array_new_length': thrower('@_ZTISt20bad_array_new_length'), '_ZSt16__throw_bad_castv': thrower('@_ZTISt8bad_cast'),
    '_ZSt20__throw_out_of_rangePKc': thrower('@_ZTISt12out_of_range'), '_ZSt24__throw_invalid_argumentPKc': thrower('@_ZTISt16invalid_argument'),
    'memcmp': e_memcmp, 'bcmp': e_memcmp, 'memmove': e_memmove, 'memcpy': e_memcpy, 'memset': e_memset, 'htonl': e_bswap32, 'ntohl': e_bswap32,
    'strlen': e_strlen, '__dynamic_cast': e_dynamic_cast,
}


def ext_rule(n):
    # construction and destruction of standard exceptions: the message is not modelled
    if re.match(r'_ZNSt(13runtime_error|11logic_error|12domain_error|16invalid_argument|12out_of_range|14overflow_error|12length_error|9exception|9bad_alloc)[CD]\d', n):
        return e_none
    if re.match(r'_ZNKSt(13runtime_error|11logic_error|9exception)4whatEv', n):
        return e_none
    if n in ('_ZNSt9exceptionD2Ev', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev'):
        return e_none
    return None
