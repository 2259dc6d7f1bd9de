from .common import FNT_LANES, RING_BUFFERS
UNITS = [('c08.cpp', ['off', 'sse', 'avx'])]


def substitutions(name, cfg):
    if name.startswith('lane_') or cfg == 'off':
        return []
    return RING_BUFFERS if 'vecp' in name else FNT_LANES


LEVEL_NOTE = 'proved for every length, count, modulus and content of 16-, 32- and 64-bit elements, without and with SSE4/AVX2'
SOLVER_S = 120
