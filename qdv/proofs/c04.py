import re
from .common import redirect
from . import c06
UNITS = [('c04.cpp', ['off']), ('c06.cpp', ['off'])]
LEVEL = 'other'
LEVEL_NOTE = 'deductive, bounded in size: for listed (n_data, n_parities), both code types, every block size, every choice of missing and wanted fragments and every header content, the C functions hand exactly the announced blocks to the block drivers and the announced headers to the record functions, and refuse exactly when one of these does; the block drivers (contracts of C06) touch only the bytes of the blocks; larger codes by generated cases under sanitizers'
BOUNDED = {'.': 'the numbers of fragments (and, for the block drivers, the packet size and the largest block) of the contract; every content'}
ASSUMPTIONS = ['fnt_serialize and fnt_deserialize touch the header given only (contracts of C19)', 'the code inside the block drivers computes any function of the words at a position (C01, C03)']
NOT_PROVED = ['other numbers of fragments: generated cases only']


def substitutions(name, cfg):
    if name.startswith(('enc_', 'dec_', 'stream_')):
        return c06.substitutions(name, cfg)
    return [(re.compile(r'FecCode<unsigned int>::encode_blocks_vertical\('), redirect('spec_encode')),
            (re.compile(r'FecCode<unsigned int>::decode_blocks_vertical\('), redirect('spec_decode')),
            (re.compile(r'quadiron::Properties::fnt_serialize\('), redirect('spec_write')),
            (re.compile(r'quadiron::Properties::fnt_deserialize\('), redirect('spec_read'))]


def options(name, cfg):
    return {'unroll': lambda f, L: True}
