import re
from .common import redirect
UNITS = [('c19.cpp', ['off'])]
LEVEL_NOTE = 'proved for every header size below 2^28 words, any contents and any number of records: writing, refusal, reading back, round trip, look-ups; the text operators >> and << and sort by generated cases'
ASSUMPTIONS = ['Properties::add appends one record (contract add discharges it for lists of up to 4 records; beyond that it is std::vector::push_back)',
               'std::vector<pair<size_t, uint32_t>> has the libstdc++ layout: begin, end, end of storage']
NOT_PROVED = ['operator<<, operator>> (text form) and sort(): generated cases only', 'lists of 2^28 records or more']
BOUNDED = {'^add': 'lists of up to 4 records; any locations and markers'}


def substitutions(name, cfg):
    if name in ('deserialize', 'roundtrip'):
        return [(re.compile(r'quadiron::Properties::add\('), redirect('spec_props_add'))]
    return ()


def options(name, cfg):
    return {'unroll': lambda f, L: name == 'add'}
