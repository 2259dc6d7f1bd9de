import re
from .. import ringnf
import z3
from ..val import *
UNITS = [('c11.cpp', ['off'])]
LEVEL = 'other'
LEVEL_NOTE = 'deductive, bounded in the transform length only: for each listed length, field and root, every input and every packet length (the output equals the value of the input polynomial by normal form over Z/p); Single proved for every length; further lengths, GF(2^n) and NF4 fields and the vectorised builds by generated cases'
BOUNDED = {r'^(?!single_\d)': 'the transform length (and field) of the contract; every input, every packet length'}
ASSUMPTIONS = ['ring operations: RingModN<T>::add, sub, mul and neg are taken by their contracts (exact modulo the cardinal), proved under C07']
NOT_PROVED = ['transform lengths other than the listed ones; transforms over GF(2^n) and NF4: generated cases only', 'the SIMD butterflies (vectorised builds): generated cases only']


def inverse(ex, args, i):
    """RingModN<T>::inv of an operand below the modulus is an element below the modulus (C07)"""
    if isinstance(args[1], int):
        return ex.plain(i)
    w = i.ty[1]
    p = ringnf.card_of(ex, args[0], w)
    ex.oblige('the operand of inv is below the modulus and not 0', z3.And(z3.ULT(args[1], p), args[1] != 0), kind='precondition')
    x = ex.fresh(w, 'inv')
    ex.fact(z3.ULT(x, p))
    return x


def substitutions(name, cfg):
    return ringnf.SUBST + ([(re.compile(r'quadiron::gf::RingModN<unsigned \w+>::inv\('), inverse)] if name.startswith('single') else [])


def options(name, cfg):
    return ringnf.OPTS
