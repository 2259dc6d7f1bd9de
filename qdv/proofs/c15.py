import re
from .. import ringnf
from .common import redirect
from . import c16
UNITS = [('c15.cpp', ['off'])]
LEVEL = 'other'
LEVEL_NOTE = 'row and column operations proved for any number of columns (rows) over any ring; inv() proved, for n up to 4, to return the right half of the reduced form exactly when its left half is the identity, so a returned inverse is one; products and the generator matrices (column operations of a Vandermonde matrix, scaled Cauchy matrix) for listed sizes; pivoting and larger sizes by generated cases'
BOUNDED = {'^(mul|inv|vander|cauchy)': 'the matrix sizes of the contract; every content', '^(swap|scale|addrow|zero)': 'rows of a matrix of up to 3 rows, any number of columns',
           '^col': 'columns of a matrix of 3 columns, any number of rows'}
ASSUMPTIONS = ['ring operations: taken by their contracts (C07 for Z/p, C09 for GF(2^n)); Prime<uint32_t>(65537) runs as is in vander_p_*',
               'inv_*: reduced_row_echelon_form leaves a matrix obtained by left multiplication (it only uses the row operations, which are under contract)',
               'a matrix whose every square selection of identity and generator rows is a selection of Vandermonde rows times an invertible matrix, or a Cauchy matrix with scaled rows and columns, is MDS (textbook determinants)']
NOT_PROVED = ['reduced_row_echelon_form finds a pivot whenever there is one (an invertible matrix is never refused): generated cases only',
              'sizes other than those listed: generated cases only']
RREF = [(re.compile(r'Matrix<unsigned int>::reduced_row_echelon_form\('), redirect('spec_rref_u32')),
        (re.compile(r'Matrix<unsigned long>::reduced_row_echelon_form\('), redirect('spec_rref_u64'))]
ANY = [(re.compile(r'quadiron::gf::(Prime|RingModN)<unsigned %s>::%s\(unsigned %s(, unsigned %s)?\) const' % (t, k, t, t)), c16.op(k, w))
       for t, w in (('short', 16), ('int', 32), ('long', 64)) for k in ('sub', 'inv')]


def substitutions(name, cfg):
    if name.startswith('mul_bin') or name.startswith(('vander_8', 'cauchy')):
        return ringnf.SUBST_EXT
    if name.startswith('mul_'):
        return ringnf.SUBST
    if name.startswith('vander_p'):
        return ()
    if name.startswith('col'):
        return COL
    return c16.SUBST + RREF


def plain(kind, w):
    import z3
    from ..val import bv

    def h(ex, args, i):
        s = z3.BitVecSort(w)
        xs = args[1:]
        return z3.Function('gfx_%s%d' % (kind, w), *([s] * (len(xs) + 1)))(*[bv(x, w) for x in xs])
    return h


COL = [(re.compile(r'quadiron::gf::(Prime|RingModN)<unsigned %s>::%s\(unsigned %s(, unsigned %s)?\) const' % (t, k, t, t)), plain(k, w))
       for t, w in (('short', 16), ('int', 32), ('long', 64)) for k in ('sub', 'inv', 'mul')]


def options(name, cfg):
    if name.startswith(('mul_', 'vander', 'cauchy')):
        return ringnf.OPTS
    return {'leaf_sext': True, 'unroll': lambda f, L: 'inv' in f.name or 'c_inv' in f.name}
