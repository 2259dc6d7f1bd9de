import re
from .. import ringnf
UNITS = [('c01.cpp', ['off'])]
LEVEL = 'other'
LEVEL_NOTE = 'deductive, bounded in the numbers of fragments only: for each listed (word size, n_data, n_parities, systematic or not) and every subset of n_data fragments, every content and packet length, decoding what the real encoder produced gives the data back (normal form over Z/p); special symbols are put back exactly where recorded; larger codes, storage of records and the vectorised builds by generated cases'
BOUNDED = {'.': 'the numbers of fragments and the subset (prepare_*: up to 3 records) of the contract; every content, packet length and offset'}
ASSUMPTIONS = ['ring operations: RingModN<T>::add, sub, mul and neg are taken by their contracts (exact modulo the cardinal), proved under C07']
NOT_PROVED = ['other numbers of fragments and the vectorised builds: generated cases only', 'the block and stream drivers around encode and decode: C06 and generated cases']


def nothing(ex, args, i):
    return None


def substitutions(name, cfg):
    return ringnf.SUBST + [(re.compile(r'RsFnt<unsigned \w+>::encode_post_process\('), nothing)]


def options(name, cfg):
    if name.startswith('prepare'):
        return {'unroll': lambda f, L: 'decode_prepare' in f.name}
    return ringnf.OPTS


def weight(name, cfg):
    return '_3_2_' in name
