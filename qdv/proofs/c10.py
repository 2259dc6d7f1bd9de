import re
from .common import redirect, fnt_lanes
UNITS = [('c10.cpp', ['off', 'sse', 'avx'])]
LEVEL_NOTE = 'proved for every element and for 1, 2 and 4 lanes, without and with SSE4/AVX2 (add, sub, neg, mul, hadamard_mul, pack, unpack, replicate); div, inv, exp and log are the operations of GF(65537), proved in C07, lane by lane'
ASSUMPTIONS = ['RingModN::init only fills the factor tables and the primitive root']


def nothing(ex, args, i):
    return None


def substitutions(name, cfg):
    out = [(re.compile(r'quadiron::gf::RingModN<.*>::init\(\)'), nothing)]
    if cfg != 'off':
        out += fnt_lanes(False)
    if name.startswith('lanewise'):
        for f in ('div', 'inv', 'exp', 'log'):
            out.append((re.compile(r'quadiron::gf::RingModN<unsigned int>::%s\(' % f), redirect('spec_sub_' + f)))
    return out
