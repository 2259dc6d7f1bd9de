UNITS = [('c18.cpp', ['off', 'avx'])]
LEVEL_NOTE = 'pack and unpack proved for every count, length and content and every pair of word and symbol widths; the stream forms (readw, writew) are checked by sampling'
NOT_PROVED = ['FecCode::readw, FecCode::writew (standard streams are outside the verifier): bounded check only']
