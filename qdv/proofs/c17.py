UNITS = [('c17.cpp', ['off', 'avx'])]
LEVEL_NOTE = 'slices, views, extensions, vectors and buffer sets proved for every length, offset, step and index'
BOUNDED = {
    r'^buf_own': 'buffer sets that own their memory: 1 to 3 buffers (copies of 1 to 4), every size and content',
    r'^buf_map': 're-mapped buffer sets: up to 3 buffers into up to 4, every injective map, size and content',
}
NOT_PROVED = ['buffer sets that allocate (constructor, copy, assignment, destructor) are proved for 1 to 4 buffers only; re-mapped sets up to 4', 'Vector::sort, rand, dump, initializer-list construction: sampled only']


def thorough_only(name, cfg):
    """buffer-set extension: one width per build in the quick tier, every width in the thorough one"""
    return name.startswith('buf_extend_') and (name, cfg) not in (('buf_extend_u16', 'off'), ('buf_extend_u32', 'avx'))


def weight(name, cfg):
    return name.startswith('buf_')
