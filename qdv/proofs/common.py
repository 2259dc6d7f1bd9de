"""Contracts of leaf functions, assumed at their call sites and proved where named."""
import re
from ..val import *
from ..sx import *


def loadv(ex, p, w, ty):
    """the value behind a pointer as a vector of lanes of w bits"""
    v = ex.load(p, ty)
    n = ty[1] * lane_w(ty[2])
    return ex.bitcast(ty, v, ('v', n // w, ('i', w))), n


def back(ex, v, ty):
    return ex.bitcast(('v', len(v.e), ('i', v.w)), v, ty)


def mod_mul(q, w, safe, strict=True):
    """simd::mod_mul<T>, simd::mod_mul_safe<T>: every lane is the product modulo q.
    Proved by contract_lane_mul*/contract_lane_mulsafe* (contracts/lanes.h)."""
    def h(ex, args, i):
        x, n = loadv(ex, args[0], w, i.ty)
        y, n = loadv(ex, args[1], w, i.ty)
        out = []
        for a, b in zip(x.e, y.e):
            pre = b_and(ult(w, a, q), ult(w, b, q))
            both = b_and(eq(w, a, q - 1), eq(w, b, q - 1))
            r = trunc(2 * w, w, urem(2 * w, mul(2 * w, zext(w, 2 * w, a), zext(w, 2 * w, b)), q))
            if strict:
                ex.oblige('operands of mod_mul are below the modulus', pre, kind='precondition')
                if not safe:
                    ex.oblige('the operands of mod_mul are not both q-1', bnot(both), kind='precondition')
            else:
                # lanes that hold anything else are left unspecified
                r = ite(pre if safe else b_and(pre, bnot(both)), r, ex.fresh(w, 'lane'), w)
            out.append(r)
        return back(ex, Vec(out, w), i.ty)
    return h


def fnt_lanes(strict):
    return [(re.compile(r'quadiron::simd::mod_mul<unsigned short>\('), mod_mul(257, 16, False, strict)),
             (re.compile(r'quadiron::simd::mod_mul<unsigned int>\('), mod_mul(65537, 32, False, strict)),
             (re.compile(r'quadiron::simd::mod_mul_safe<unsigned short>\('), mod_mul(257, 16, True, strict)),
             (re.compile(r'quadiron::simd::mod_mul_safe<unsigned int>\('), mod_mul(65537, 32, True, strict))]


FNT_LANES = fnt_lanes(True)


def redirect(spec):
    """a call is replaced by its contract, written as a function of the contract file"""
    def h(ex, args, i):
        v, g, exc = ex.run('@' + spec, args)
        ex.g = g
        return v
    return h


_RING = [('neg', r'neg\(unsigned long, unsigned \w+\*\) const'), ('mul_coef', r'mul_coef_to_buf\('),
         ('add', r'add_two_bufs\('), ('sub', r'sub_two_bufs\(')]
RING_BUFFERS = [(re.compile(r'quadiron::gf::RingModN<unsigned %s>::%s' % (t, rx)), redirect('spec_%s_%d' % (n, b)))
                for t, b in (('short', 16), ('int', 32)) for n, rx in _RING]
