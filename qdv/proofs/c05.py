import re
from .. import ringnf
from .common import redirect
UNITS = [('c05.cpp', ['off'])]
LEVEL = 'other'
LEVEL_NOTE = 'deductive, bounded in the numbers of fragments only: for RsGf2n (Vandermonde, Cauchy), RsGf2nFft and RsGfpFft, each listed (word size, n_data, n_parities) and every subset of n_data fragments, every content decodes to the data (normal form over GF(2^n) or Z/p); records of RsGfpFft made and put back exactly; RsGf2nFftAdd, RsNf4, larger codes and the drivers by generated cases'
BOUNDED = {'.': 'the numbers of fragments, word size and subset of the contract; every content'}
ASSUMPTIONS = ['ring operations: RingModN<T>::add, sub, mul, neg are taken by their contracts (proved under C07), the operations of BinExtension<T> by theirs (GF(2^n) of the polynomial documented in gf_bin_ext.h, under C09)',
               'Properties::add appends the record it is given (C19)']
NOT_PROVED = ['RsGf2nFftAdd (the degree of its decoding polynomial depends on the data), RsNf4, other numbers of fragments, the stream drivers: generated cases only']


def nothing(ex, args, i):
    return None


def substitutions(name, cfg):
    if name.startswith('marks'):
        return [(re.compile(r'quadiron::Properties::add\('), redirect('spec_props_add'))]
    if name.startswith('prime'):
        return ringnf.SUBST + [(re.compile(r'RsGfpFft<unsigned \w+>::encode_post_process\('), nothing)]
    return ringnf.SUBST_EXT


def options(name, cfg):
    return {} if name.startswith(('marks', 'prepare')) else ringnf.OPTS
