import re
from .common import redirect
UNITS = [('c09.cpp', ['off'])]
LEVEL_NOTE = 'proved for all operands, with any tables: products, quotients and inverses of n <= 16 are the table entries of the sum, difference and opposite of the logarithms, products of n = 32, 64, 128 are the sums of the split table entries, addition is exclusive or, buffer operations apply them at every index; proved that the real logarithm tables hold the powers of x (n <= 16); the split tables entry by entry, inversion by extended gcd, exp and log by generated cases'
ASSUMPTIONS = ['logarithms are below 2^n - 1 and log 1 = 0 (tables_* prove it of the real tables)',
               'multiplication is determined by the products of bytes (bilinearity): textbook']
NOT_PROVED = ['entries of the split tables (n >= 32): every pair of bytes at every degree is run against the oracle', '_inv_ext_gcd, and so division for n >= 32; exp and log: generated cases only',
              'the 16-bit field over 64- and 128-bit types: its tables are run, not proved']


def substitutions(name, cfg):
    if name.startswith('bufs'):
        return [(re.compile(r'BinExtension<unsigned %s>::mul\(' % t), redirect('spec_mul_%d' % w)) for t, w in (('short', 16), ('int', 32), ('long', 64), ('__int128', 128))]
    return ()


def options(name, cfg):
    if name.startswith('bufs'):
        return {'unroll': lambda f, L: 'c_bufs' not in f.name and not re.search(r'hadamard|_bufs|_buf', f.name)}
    return {'unroll': lambda f, L: True, 'limit': 1 << 22}


def weight(name, cfg):
    return name == 'tables_16'
