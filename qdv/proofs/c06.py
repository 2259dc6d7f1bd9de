import re
from .common import redirect
UNITS = [('c06.cpp', ['off'])]
LEVEL = 'other'
LEVEL_NOTE = "deductive, bounded in size: the block and stream drivers (vertical and horizontal), around a code that computes any function of the words of a position, for listed (word size, n_data, n_parities, packet size), every length from 0 to 3 packets and more, every content, every choice of wanted fragments, every set of present fragments of 2+2 and 2+1; larger sizes by generated cases"
BOUNDED = {'.': 'the numbers of fragments, the packet size and the largest block (p, b) of the contract; every content, every block size up to b bytes'}
ASSUMPTIONS = ['the code inside is a virtual encode/decode that computes any (uninterpreted) function of the words at a position and of the position', 'gettimeofday and the cycle counter return anything (statistics only)']
NOT_PROVED = ["std::istream::read and std::ostream::write, and the functions readw, writew, read_pkt and write_pkt around them: generated cases only",
              'that the real codes compute a function of the words of a position: C01, C03, C05']


def any64(ex, args, i):
    return ex.fresh(64, 'clock')


def zero(ex, args, i):
    return 0


def substitutions(name, cfg):
    return [(re.compile(r'^(quadiron::)?(hw_timer|hrtime_usec)\('), any64), (re.compile(r'^gettimeofday'), zero)] + [
        (re.compile(r'FecCode<unsigned int>::%s\(' % f), redirect('spec_' + f)) for f in ('readw', 'writew', 'read_pkt', 'write_pkt')]


def options(name, cfg):
    return {'unroll': lambda f, L: True}
