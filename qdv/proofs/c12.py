from .. import ringnf
UNITS = [('c12.cpp', ['off'])]
LEVEL = 'other'
LEVEL_NOTE = 'deductive, bounded in the dimension only: for dimensions up to 5 (own and given bases, GF(2^8), GF(2^16), GF(2^32)), every coefficient vector is evaluated exactly at the span in binary order and the inverse finds the polynomial (normal form over GF(2^n)); Taylor expansions are the polynomial and are inverted exactly, for listed t and lengths; larger dimensions by generated cases'
BOUNDED = {'.': 'the dimension, field and basis (t and length) of the contract; every content'}
ASSUMPTIONS = ['the operations of BinExtension<T> are taken by their contracts (GF(2^n) of the polynomial documented in gf_bin_ext.h, decided under C09)']
NOT_PROVED = ['dimensions above 5 and other bases: generated cases only']


def substitutions(name, cfg):
    return ringnf.SUBST_EXT


def options(name, cfg):
    return dict(ringnf.OPTS, limit=200)
