"""Symbolic memory: regions holding layers of guarded writes."""
import z3
from .val import *

G_TRUE = ()


def gand(g, *cs):
    """conjunction guard: a tuple of z3 bools; None is false"""
    if g is None:
        return None
    out = list(g)
    for c in cs:
        if c is True:
            continue
        if c is False:
            return None
        if z3.is_and(c):
            r = gand(tuple(out), *c.children())
            if r is None:
                return None
            out = list(r)
            continue
        n = bnot(c)
        hit = False
        for o in out:
            if o.eq(c):
                hit = True
                break
            if o.eq(n):
                return None
        if not hit:
            out.append(c)
    return tuple(out)


def gz(g):
    """guard as a bool"""
    if g is None:
        return False
    return b_and(*g)


def ginter(gs):
    if not gs:
        return ()
    r = []
    for c in gs[0]:
        if all(any(c.eq(o) for o in g) for g in gs[1:]):
            r.append(c)
    return tuple(r)


def gminus(g, common):
    return tuple(c for c in g if not any(c.eq(o) for o in common))


def gmerge(gs):
    """disjunction of guards"""
    gs = [g for g in gs if g is not None]
    if not gs:
        return None
    st = []
    for g in gs:
        cur = g
        ch = True
        while ch:
            ch = False
            for i in range(len(st) - 1, -1, -1):
                m = gcombine(st[i], cur)
                if m is not None:
                    st.pop(i)
                    cur = m
                    ch = True
                    break
        st.append(cur)
    if len(st) == 1:
        return st[0]
    com = ginter(st)
    return gand(com, b_or(*[gz(gminus(g, com)) for g in st]))


def gcombine(a, b):
    com = ginter([a, b])
    ra, rb = gminus(a, com), gminus(b, com)
    if not ra or not rb:
        return com
    if len(ra) == 1 and len(rb) == 1 and ra[0].eq(bnot(rb[0])):
        return com
    if len(ra) == 1 and any(bnot(ra[0]).eq(x) for x in rb):   # a | (!a & r) = a | r: keep exact form
        r = gminus(rb, (bnot(ra[0]),))
        return gand(com, b_or(ra[0], gz(r)))
    if len(rb) == 1 and any(bnot(rb[0]).eq(x) for x in ra):
        r = gminus(ra, (bnot(rb[0]),))
        return gand(com, b_or(rb[0], gz(r)))
    return None


class Region:
    cnt = 0

    def __init__(self, name, size, base='undef', g0=(), fam=None, align=16, elem=1, ro=False):
        Region.cnt += 1
        self.id = Region.cnt
        self.name, self.size, self.base, self.g0, self.align, self.elem, self.ro = name, size, base, g0, align, elem, ro
        self.fam = fam            # None, or the binders the region was allocated under: idx is the innermost one
        self.layers = []          # dict (cells) or W
        self.frozen = False
        self.fn = None
        self.freed = False
        self.bound = None
        self.func = None          # a function region
        self.addr = None
        self.lazy = None


class W:
    """a write at a symbolic place: under binders [(K, T)] (each 0 <= K <= T)"""
    __slots__ = ('b', 'g', 'idx', 'off', 'kind', 'n', 'val', 'src')

    def __init__(self, b, g, idx, off, kind, n, val, src=None):
        self.b, self.g, self.idx, self.off, self.kind, self.n, self.val, self.src = b, g, idx, off, kind, n, val, src


class Split(Exception):
    pass


def lane_bytes(v, r, w, W_):
    """bytes [r, r+w) of a stored value of W_ bytes"""
    if isinstance(v, Undef):
        return UNDEF
    if isinstance(v, (Ptr, PIte)):
        if r == 0 and w == 8:
            return v
        raise Unsupported('part of a pointer')
    if isinstance(v, Vec):
        lw = v.w // 8 if v.w > 0 else 8
        if v.w == 0:
            raise Unsupported('stored i1 vector')
        if w <= lw and r // lw == (r + w - 1) // lw:
            return lane_bytes(v.e[r // lw], r % lw, w, lw)
        parts = []
        o = r
        while o < r + w:
            k = o // lw
            e = min(r + w, (k + 1) * lw)
            parts.append((lane_bytes(v.e[k], o - k * lw, e - o, lw), 8 * (e - o)))
            o = e
        return cat_bytes(parts)
    if r == 0 and w == W_:
        return v
    return extract(8 * W_, 8 * (r + w) - 1, 8 * r, v)


def cat_bytes(parts):
    """little-endian list of (value, bits)"""
    if len(parts) == 1:
        return parts[0][0]
    if all(isinstance(v, Undef) for v, w in parts):
        return UNDEF
    out = []
    for v, w in parts:
        if isinstance(v, (Ptr, PIte)):
            raise Unsupported('part of a pointer')
        if isinstance(v, Undef):
            v = z3.FreshConst(z3.BitVecSort(w), 'undef')
        out.append((v, w))
    return concat(out[::-1])


class Mem:
    def __init__(self, ex):
        self.ex = ex
        self.marks = []
        self.wlog = None
        self.rlog = None

    # ---- snapshots
    def touch(self, reg):
        for m in self.marks:
            if reg not in m:
                m[reg] = self.snap(reg)

    def snap(self, reg):
        if reg.lazy:
            reg.lazy(reg)
        reg.frozen = True
        return tuple(reg.layers)

    def cells(self, reg):
        if not reg.layers or not isinstance(reg.layers[-1], dict):
            reg.layers.append({})
        elif reg.frozen:
            if len(reg.layers[-1]) <= 64:
                reg.layers[-1] = dict(reg.layers[-1])
            else:
                reg.layers.append({})
        reg.frozen = False
        return reg.layers[-1]

    # ---- write
    def write(self, reg, g, idx, off, n, val):
        if reg.lazy:
            reg.lazy(reg)
        self.touch(reg)
        gg = gz(gminus(g, reg.g0))
        if isinstance(off, int) and idx is None:
            if self.wlog is not None:
                self.wlog.append((reg, 'cell', off, n, g))
            self.cell_write(reg, gg, off, n, val)
            return
        w = W((), gg, idx, off, 'st', n, val)
        if self.wlog is not None:
            self.wlog.append((reg, w))
        # the same place again: replace
        if reg.layers and isinstance(reg.layers[-1], W):
            t = reg.layers[-1]
            if t.kind == 'st' and not t.b and t.n == n and same(t.off, off) and (idx is None or same(t.idx, idx)) and gg is True:
                reg.layers = reg.layers[:-1]
        reg.layers = reg.layers + [w]
        reg.frozen = False

    def cell_write(self, reg, gg, off, n, val):
        if isinstance(val, Vec) and val.w > 0 and val.w % 8 == 0:
            lw = val.w // 8
            for i, x in enumerate(val.e):
                self.cell_write(reg, gg, off + i * lw, lw, x)
            return
        if gg is not True:
            old = self.read(reg, None, off, n, ptr=isinstance(val, (Ptr, PIte)))
            val = vite(gg, val, old, 8 * n)
        c = self.cells(reg)
        e = c.get(off)
        if e is not None and e[0] == n:
            c[off] = (n, val)
            return
        # split the cells this one overlaps
        for s in range(off - 63, off + n):
            e = c.get(s)
            if e is not None and s + e[0] > off:
                del c[s]
                if s < off:
                    c[s] = (off - s, lane_bytes(e[1], 0, off - s, e[0]))
                if s + e[0] > off + n:
                    c[off + n] = (s + e[0] - off - n, lane_bytes(e[1], off + n - s, s + e[0] - off - n, e[0]))
        c[off] = (n, val)

    def block(self, reg, g, idx, off, kind, n, val=None, src=None):
        """memcpy / memset of n bytes"""
        if reg.lazy:
            reg.lazy(reg)
        self.touch(reg)
        gg = gz(gminus(g, reg.g0))
        w = W((), gg, idx, off, kind, n, val, src)
        if self.wlog is not None:
            self.wlog.append((reg, w))
        reg.layers = reg.layers + [w]
        reg.frozen = False

    # ---- read
    def read(self, reg, idx, off, n, ptr=False):
        if reg.lazy:
            reg.lazy(reg)
        if self.rlog is not None:
            self.rlog.append((reg, idx, off, n, self.ex.g))
        if not self.ex.trial or ptr:
            return self.rd(reg, reg.layers, len(reg.layers), idx, off, n, ptr)
        try:
            return self.rd(reg, reg.layers, len(reg.layers), idx, off, n, ptr)
        except Unsupported as e:
            if 'unknown alignment' not in str(e):
                raise
            # while the counters of a loop are being found out
            x = z3.BitVec('unknown!%d' % len(self.ex.unknown), 8 * n)
            self.ex.unknown[x.get_id()] = x
            return x

    def rd(self, reg, layers, k, idx, off, n, ptr):
        try:
            return self.rd1(reg, layers, k, idx, off, n, ptr)
        except Split:
            if n == 1:
                raise Unsupported('misaligned access')
            h = n // 2
            return cat_bytes([(self.rd(reg, layers, k, idx, off, h, False), 8 * h),
                              (self.rd(reg, layers, k, idx, add(64, off, h), n - h, False), 8 * (n - h))])

    def rd1(self, reg, layers, k, idx, off, n, ptr):
        while k:
            L = layers[k - 1]
            if isinstance(L, dict):
                if isinstance(off, int):
                    e = L.get(off)
                    if e is not None and e[0] == n:
                        return e[1]
                    r = self.rd_cells(reg, layers, k, L, idx, off, n, ptr)
                    if r is not None:
                        return r[0]
                elif L:
                    return self.rd_cells_sym(reg, layers, k, L, idx, off, n, ptr)
                k -= 1
                continue
            m = self.match(reg, L, idx, off, n)
            if m is None:
                k -= 1
                continue
            cond, val = m
            if cond is True:
                return val
            rest = self.rd(reg, layers, k - 1, idx, off, n, ptr)
            return vite(cond, val, rest, 8 * n)
        return self.base(reg, idx, off, n, ptr)

    def rd_cells(self, reg, layers, k, L, idx, off, n, ptr):
        """concrete offset, no cell of exactly this range; None when no cell overlaps"""
        hits = []
        for s in range(off - 63, off + n):
            e = L.get(s)
            if e is not None and s + e[0] > off:
                hits.append((s, e[0], e[1]))
        if not hits:
            return None
        parts, o = [], off
        for s, w, v in hits:
            if s > o:
                parts.append((self.rd(reg, layers, k - 1, idx, o, s - o, False), 8 * (s - o)))
                o = s
            e = min(s + w, off + n)
            parts.append((lane_bytes(v, o - s, e - o, w), 8 * (e - o)))
            o = e
        if o < off + n:
            parts.append((self.rd(reg, layers, k - 1, idx, o, off + n - o, False), 8 * (off + n - o)))
        return (cat_bytes(parts),)

    def rd_cells_sym(self, reg, layers, k, L, idx, off, n, ptr):
        if len(L) > 70000:
            raise Unsupported('symbolic read over %d cells of %s' % (len(L), reg.name))
        r = self.rd(reg, layers, k - 1, idx, off, n, ptr)
        c, co = lin(off, 64)
        ok = all(y % n == 0 for x, y in co.values())
        if len(L) > 64 and ok and all(e[0] == n and isinstance(e[1], int) and s % n == 0 for s, e in L.items()) and c % n == 0:
            a = self.ex.table(reg, L, n)
            if len(L) * n == reg.size or isinstance(r, Undef):
                return a[bv(divc(off, n), 64)]
        if len(L) > 600:
            raise Unsupported('symbolic read over %d cells of %s' % (len(L), reg.name))
        groups = {}
        for s, (w, v) in sorted(L.items()):
            if isinstance(v, Undef):
                continue
            if w == n and ok:
                if (s - c) % n == 0:
                    r = vite(eq(64, off, s), v, r, 8 * n) if not isinstance(r, Undef) else vite(True, v, r)
                else:
                    raise Split()
            elif w > n and ok and w % n == 0:
                for j in range(0, w, n):
                    if (s + j - c) % n:
                        raise Split()
                    x = lane_bytes(v, j, n, w)
                    r = vite(eq(64, off, s + j), x, r, 8 * n) if not isinstance(r, Undef) else x
            elif w < n:
                raise Split()
            else:
                raise Unsupported('symbolic offset of unknown alignment in %s' % reg.name)
        return r

    def match(self, reg, L, idx, off, n):
        """None, or (condition, value read) for one write layer"""
        b = dict((k_.get_id(), (k_, t)) for k_, t in L.b)
        sol = []
        todo = list(L.b)
        Lidx, Loff, LT = L.idx, L.off, None
        conds = []
        r = None
        # binders fixed by the index
        prog = True
        lidx = Lidx
        if Lidx is not None and todo:
            l = lin(Lidx, 64) if not isinstance(Lidx, int) else (Lidx, {})
            ks = [(k_, t) for k_, t in todo if k_.get_id() in l[1]]
            if len(ks) == 1:
                k_, t = ks[0]
                co = l[1][k_.get_id()][1]
                rest = dict(l[1])
                del rest[k_.get_id()]
                free = consts_of(unlin((0, rest), 64)) if rest else {}
                if co in (1, mask(64)) and not any(x.get_id() in free for x, _ in todo):
                    d = sub(64, idx, unlin((l[0], rest), 64))
                    v = d if co == 1 else sub(64, 0, d)
                    sol.append((k_, v))
                    todo = [x for x in todo if x[0].get_id() != k_.get_id()]
                    Lidx = None
        if sol:
            Loff = subst(Loff, sol)
        # binders fixed by the offset
        unit = self.unit(L)
        if L.kind != 'st' and todo:
            raise Unsupported('block write under a loop at offsets of one buffer')
        for _ in range(len(todo)):
            l = lin(Loff, 64) if not isinstance(Loff, int) else (Loff, {})
            ks = [(k_, t) for k_, t in todo if k_.get_id() in l[1]]
            if not ks:
                break
            if len(ks) > 1:
                raise Unsupported('write depending on two loop counters')
            k_, t = ks[0]
            s = l[1][k_.get_id()][1]
            rest = dict(l[1])
            del rest[k_.get_id()]
            d = sub(64, off, unlin((l[0], rest), 64))
            neg_ = s > mask(63)
            a = (1 << 64) - s if neg_ else s
            if L.n > a or a % 1:
                raise Unsupported('overlapping writes in a loop')
            v, r = self.solve(d, a, neg_, n, L.n)
            if v is None:
                return None
            if not isinstance(r, int) and L.n < a:
                conds.append(ult(64, r, L.n))
            sol.append((k_, v))
            todo = [x for x in todo if x[0].get_id() != k_.get_id()]
            Loff = None
            break
        for k_, t in list(todo):   # the place does not depend on it: the last iteration wins
            g = L.g
            if not isinstance(g, bool) and k_.get_id() in consts_of(g):
                raise Unsupported('conditional write to one place in a loop: %s %s %s' % (reg.name, Lidx, Loff))
            for place in (Lidx, Loff):
                if place is not None and not isinstance(place, int) and k_.get_id() in consts_of(place):
                    raise Unsupported('write at an unsolved place in a loop: %s' % str(place)[:200])
            sol.append((k_, t))
        # resolve solutions in terms of one another (bounds may mention outer counters)
        for _ in range(len(sol)):
            sol = [(k_, subst(v, [s for s in sol if s[0] is not k_])) for k_, v in sol]
        for k_, t in L.b:
            v = [x for y, x in sol if y is k_][0]
            conds.append(bnot(ult(64, subst(t, sol), v)))
        g = subst(L.g, sol) if sol else L.g
        if Lidx is not None:
            c = eq(64, subst(Lidx, sol) if sol else Lidx, idx)
            conds.append(c)
            if c is False:
                return None
        if Loff is not None:
            if sol:
                Loff = subst(Loff, sol)
            d = sub(64, off, Loff)
            if L.kind in ('cp', 'fill'):
                ln = subst(L.n, sol) if sol else L.n
                return self.match_block(reg, L, sol, g, conds, d, ln, n)
            if isinstance(d, int):
                sd = sgn(d, 64)
                if sd >= L.n or sd + n <= 0:
                    return None
                if sd < 0 or sd + n > L.n:
                    raise Split()
                r = sd
            else:
                c, co = lin(d, 64)
                m = max(L.n, n)
                if n > L.n:
                    raise Split()
                if all(y % L.n == 0 for x, y in co.values()):
                    r = sgn(c, 64) % L.n
                    if r + n > L.n:
                        raise Split()
                    conds.append(eq(64, sub(64, d, r), 0))
                elif all(y % n == 0 for x, y in co.values()) and c % n == 0:
                    conds.append(ult(64, d, L.n))
                    r = d
                else:
                    raise Unsupported('offset of unknown alignment in %s: %s' % (reg.name, str(d)[:80]))
        elif L.kind != 'st':
            raise Unsupported('block write')
        conds.append(g)
        cond = self.ex.decide(b_and(*[c for c in conds]))
        if cond is False:
            return None
        val = L.val
        if isinstance(r, int):
            v = lane_bytes(val, r, n, L.n)
            if sol:
                v = subst(v, sol)
        else:
            if sol:
                val = subst(val, sol)
            v = None
            for j in range(0, L.n - n + 1, n):
                x = lane_bytes(val, j, n, L.n)
                v = x if v is None else vite(eq(64, r, j), x, v, 8 * n)
        return cond, v

    def unit(self, L):
        return L.n if isinstance(L.n, int) else 1

    def solve(self, d, a, neg_, n, ln):
        """d = +-a*K + r with 0 <= r and r + n <= ln: (K, r)"""
        c, co = lin(d, 64)
        if all(sgn(y, 64) % a == 0 for x, y in co.values()):
            r = sgn(c, 64) % a
            if r + n > ln:
                if r >= ln and r + n <= a:
                    return None, None
                raise Split()
            q = divc(sub(64, d, r), a)
            return (sub(64, 0, q) if neg_ else q), r
        if neg_:
            raise Unsupported('descending writes read at another stride')
        if ln % n:
            raise Unsupported('strided writes read at another width')
        if not (all(y % n == 0 for x, y in co.values()) and c % n == 0):
            raise Unsupported('offset of unknown alignment: %s of %s in stride %d' % (str(d)[:300], n, a))
        k = log2(a)
        return (lshr(64, d, k) if k is not None else udiv(64, d, a)), urem(64, d, a)

    def match_block(self, reg, L, sol, g, conds, d, ln, n):
        cond = self.ex.decide(b_and(*(conds + [ult(64, d, ln), g])))
        if cond is False:
            return None
        if n > 1:
            lc, lco = lin(ln, 64)
            dc, dco = lin(d, 64)
            if isinstance(d, int) and isinstance(ln, int):
                if sgn(d, 64) + n <= 0:
                    return None
                if d + n > ln or sgn(d, 64) < 0:
                    raise Split()
            elif not (lc % n == 0 and all(y % n == 0 for x, y in lco.values()) and dc % n == 0 and all(y % n == 0 for x, y in dco.values())):
                raise Split()
        if L.kind == 'fill':
            v = subst(L.val, sol) if sol else L.val
            if isinstance(v, Undef):
                return cond, UNDEF
            return cond, (concat([(v, 8)] * n) if n > 1 else v)
        sreg, slayers, sidx, soff = L.src
        if sol:
            sidx, soff = (None if sidx is None else subst(sidx, sol)), subst(soff, sol)
        v = self.rd(sreg, slayers, len(slayers), sidx, add(64, soff, d), n, False)
        return cond, v

    def base(self, reg, idx, off, n, ptr):
        if reg.base == 'undef':
            return UNDEF
        if reg.base == 'zero':
            return Ptr(None, 0) if ptr else 0
        if reg.base == 'ptrs':      # an array of n pointers to the buffers of a family
            return Ptr(reg.target, 0, divc(off, 8))
        e = reg.elem
        if n == e:
            i = divc(off, e)
            return reg.fn(*([] if idx is None else [bv(idx, 64)]), bv(i, 64))
        if n > e:
            if n % e:
                raise Split()
            return cat_bytes([(self.base(reg, idx, add(64, off, j), e, False), 8 * e) for j in range(0, n, e)])
        c, co = lin(off, 64)
        if all(y % e == 0 for x, y in co.values()):
            r = c % e
            if r + n > e:
                raise Split()
            v = self.base(reg, idx, sub(64, off, r), e, False)
            return extract(8 * e, 8 * (r + n) - 1, 8 * r, v)
        if all(y % n == 0 for x, y in co.values()) and c % n == 0 and log2(e) is not None:
            i = lshr(64, off, log2(e))
            v = reg.fn(*([] if idx is None else [bv(idx, 64)]), bv(i, 64))
            rr = urem(64, off, e)
            out = None
            for j in range(0, e, n):
                x = extract(8 * e, 8 * (j + n) - 1, 8 * j, v)
                out = x if out is None else vite(eq(64, rr, j), x, out, 8 * n)
            return out
        raise Unsupported('offset of unknown alignment in %s' % reg.name)


def divc(off, e):
    """off / e for an offset that is a multiple of e"""
    if e == 1:
        return off
    if isinstance(off, int):
        if sgn(off, 64) % e:
            raise Split()
        return sgn(off, 64) // e & mask(64)
    c, co = lin(off, 64)
    if sgn(c, 64) % e == 0:
        ok = True
        d = {}
        for k, (x, y) in co.items():
            if sgn(y, 64) % e == 0 and y < 1 << 63:
                d[k] = (x, y // e)
            elif sgn(y, 64) % e == 0:
                d[k] = (x, mask(64) + 1 - ((1 << 64) - y) // e)
            else:
                ok = False
        if ok:
            cc = c // e if c < 1 << 63 else (mask(64) + 1 - ((1 << 64) - c) // e) & mask(64)
            return unlin((cc, d), 64)
    k = log2(e)
    if all(y % e == 0 for x, y in co.values()) and c % e:
        raise Split()
    if k is not None:
        return lshr(64, off, k)
    return udiv(64, off, e)
