import re
from .. import ringnf
from .common import redirect
UNITS = [('c03.cpp', ['off'])]
LEVEL = 'other'
LEVEL_NOTE = 'deductive, bounded in the numbers of fragments only: for each listed (word size, n_data, n_parities), every data content and packet length, fragment j equals the value of the data polynomial at r^j (normal form over Z/p), and records are made exactly at the special symbols; further parameters and the vectorised builds by generated cases'
BOUNDED = {'.': 'the word size and the numbers of data and parity fragments of the contract; every content, packet length and offset'}
ASSUMPTIONS = ['ring operations: RingModN<T>::add, sub, mul and neg are taken by their contracts (exact modulo the cardinal), proved under C07',
               'Properties::add appends the record it is given (decided under C19)']
NOT_PROVED = ['other numbers of fragments; the vectorised builds; the truncation of symbols to words is C18, the block and stream drivers are C06: generated cases only']


def nothing(ex, args, i):
    return None


def substitutions(name, cfg):
    if name.startswith('marks'):
        return [(re.compile(r'quadiron::Properties::add\('), redirect('spec_props_add'))]
    return ringnf.SUBST + [(re.compile(r'RsFnt<unsigned \w+>::encode_post_process\('), nothing)]


def options(name, cfg):
    return ringnf.OPTS


def thorough_only(name, cfg):
    return name in ('encode_sys_2_7_1', 'encode_sys_2_5_3')


def weight(name, cfg):
    return name.startswith('encode_sys')
