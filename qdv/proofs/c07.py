import re
from .common import redirect
UNITS = [('c07.cpp', ['off', 'sse', 'avx'])]
LEVEL_NOTE = 'proved for every modulus and operand of 16-, 32- and 64-bit elements (add, sub, neg, mul, div, inv, exp, log); the contract of arith::extended_gcd is assumed in inv: its Bezout identity is proved in C13 (machine arithmetic), the range of the coefficient is checked by sampling'
ASSUMPTIONS = ['arith::extended_gcd(a, card) returns a Bezout coefficient that inverts a modulo card, between -card and card (C13 proves the identity in the machine arithmetic of the type; the range is sampled)',
               '128-bit element types are not under contract']
_T = (('short', 16), ('int', 32), ('long', 64))


def recursive(spec, name):
    """a recursive call is replaced by the contract; the outermost call is executed"""
    to = redirect(spec)

    def h(ex, args, i):
        if any('9exp_quick' in f.f.name for f in ex.stack):
            return to(ex, args, i)
        return ex.plain(i)
    return h


def substitutions(name, cfg):
    out = []
    for t, b in _T:
        R = r'quadiron::gf::RingModN<unsigned %s>::' % t
        if name.startswith('inv_') and 'exp' not in name:
            out.append((re.compile(r'arith::extended_gcd<unsigned %s>\(' % t), redirect('spec_egcd_%d' % b)))
        if name.startswith('div'):
            out.append((re.compile(R + r'inv\('), redirect('spec_inv_%d' % b)))
        if 'exp' in name:
            out.append((re.compile(R + r'exp_quick\('), recursive('spec_exp_%d' % b, b)))
        if name.startswith('log'):
            out.append((re.compile(R + r'exp\('), redirect('spec_exp_%d' % b)))
    return out
