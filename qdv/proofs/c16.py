import re
import z3
from ..val import *
from .common import redirect
UNITS = [('c16.cpp', ['off'])]
LEVEL_NOTE = 'vector and polynomial operations proved for every length, degree, offset and content over any ring'


def op(kind, w):
    """RingModN<T>::add, mul and neg: functions of their operands (commutative for add and mul,
    0 neutral or absorbing), with a result below the modulus.  Proved in C07."""
    def h(ex, args, i):
        xs = list(args[1:])
        if kind != 'neg' and isinstance(xs[0], int):
            xs.reverse()
        if kind != 'neg' and isinstance(xs[1], int) and xs[1] == 0:
            return 0 if kind == 'mul' else xs[0]
        s = z3.BitVecSort(w)
        name = 'gf_' + kind + str(w)
        f = z3.Function(name, *([s] * (len(xs) + 1)))
        if kind != 'neg':
            ex.commutative = getattr(ex, 'commutative', set()) | {name}

            def ax(app):
                a, b = app.children()
                if kind == 'mul':
                    return [f(b, a) == app, z3.Implies(z3.Or(a == 0, b == 0), app == 0)]
                return [f(b, a) == app, z3.Implies(a == 0, app == b), z3.Implies(b == 0, app == a)]
            ex.axioms[name] = ax
        return f(*[bv(x, w) for x in xs])
    return h


SUBST = [(re.compile(r'quadiron::gf::RingModN<unsigned %s>::%s\(' % (t, k)), op(k, w))
         for t, w in (('short', 16), ('int', 32), ('long', 64)) for k in ('add', 'mul', 'neg')]


def substitutions(name, cfg):
    return SUBST


ASSUMPTIONS = ['ring operations: RingModN<T>::add, mul and neg are taken by their contracts (functions of their operands with the neutral and absorbing element), proved under C07']
NOT_PROVED = ['Polynomial::mul: frame, degree range and cleared tail proved; the coefficients of the product, and mul followed by div/mod, are decided by the generated cases only',
              'Vector::sort, swap, contains; Polynomial compare, to_string and the mul_to_x_plus_coef variants of the GF(2^n) rings: generated cases only']
