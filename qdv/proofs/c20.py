UNITS = [('c20.cpp', ['off', 'sse', 'avx'])]
LEVEL_NOTE = 'allocation and release proved for every count and every address the system allocator may return'
ASSUMPTIONS = ['operator new returns fresh memory, aligned to 16 bytes, of the size asked (below 2^47 bytes) or throws; distinct live allocations do not overlap']
