import re
from .common import redirect
UNITS = [('c02.cpp', ['off'])]
LEVEL = 'other'
LEVEL_NOTE = 'deductive, bounded in the numbers of fragments: for listed (n_data, n_parities, destination), both code types, every block size, every set of missing fragments and every header content, reconstruction decodes exactly the missing data into scratch blocks, encodes exactly the destination behind its header and writes the record of the destination to its header, and nothing else; that decoding and encoding give the same bytes: C01, C03, C06; larger codes by generated cases'
BOUNDED = {'.': 'the numbers of fragments and the destination of the contract; every block size below 2^40, every set of missing fragments'}
ASSUMPTIONS = ['encode_blocks_vertical writes only wanted fragments, decode_blocks_vertical only wanted data (contracts of C06)', 'fnt_serialize and fnt_deserialize touch the header given only (contracts of C19)']
NOT_PROVED = ['other numbers of fragments: generated cases only']


def substitutions(name, cfg):
    return [(re.compile(r'FecCode<unsigned int>::encode_blocks_vertical\('), redirect('spec_encode')),
            (re.compile(r'FecCode<unsigned int>::decode_blocks_vertical\('), redirect('spec_decode')),
            (re.compile(r'quadiron::Properties::fnt_serialize\('), redirect('spec_write')),
            (re.compile(r'quadiron::Properties::fnt_deserialize\('), redirect('spec_read'))]


def options(name, cfg):
    return {'unroll': lambda f, L: True}
