import re
from .common import redirect
UNITS = [('c14.cpp', ['off'])]
LEVEL = 'other'
LEVEL_NOTE = 'proved for every modulus: the n-th root is the power (card-1)/gcd(n, card-1) of the generator, and (up to 4 distinct prime divisors, any values) the generator found is the first element of which no power over a prime is 1; Lean proves that these have the exact orders claimed. Order of an element: every element of the listed fields; code lengths: every request for the listed factorisations; get_code_len and other fields by generated cases'
LEMMAS = ['order.lean']
BOUNDED = {'^order': 'the field of the contract; every element', '^high': 'the factorisation of the contract; every request', '^(is_)?generator': 'up to 4 proper divisors, of any values'}
ASSUMPTIONS = ['exponentiation is the power in the group (C07, C09), gcd the greatest common divisor (C13)',
               'the proper divisors held by a field are (card-1)/p for the primes p dividing card-1 (factor_prime: generated cases of C13; computed by the real code in order_*)']
NOT_PROVED = ['get_code_len (division circuits: out of reach of the solver): every request for many orders is run', 'other fields in get_order: generated cases only']
W = (('short', 16), ('int', 32), ('long', 64))


def substitutions(name, cfg):
    out = []
    for t, w in W:
        if name.startswith('order'):
            if w > 16:
                out.append((re.compile(r'quadiron::gf::(RingModN|Prime|BinExtension)<unsigned %s>::exp\(' % t), redirect('spec_powers_%d' % w)))
        else:
            out.append((re.compile(r'quadiron::gf::(RingModN|Prime|BinExtension)<unsigned %s>::exp\(' % t), redirect('spec_exp_%d' % w)))
            out.append((re.compile(r'quadiron::arith::gcd<unsigned %s>\(' % t), redirect('spec_gcd_%d' % w)))
    return out


def options(name, cfg):
    if name.startswith('generator'):
        return {'unroll': lambda f, L: 'find_primitive_root' not in f.name or L.parent is not None}
    return {'unroll': lambda f, L: True, 'limit': 1 << 20}
