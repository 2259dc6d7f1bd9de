// Records of special symbols: headers of any size and contents, lists of any length
#include "quadiron.h"
#include "property.h"
#include "qdv.h"
using namespace quadiron;

typedef std::pair<size_t, uint32_t> Record;
static_assert(sizeof(Record) == 16, "two words");
static uint32_t swap32(uint32_t x) { return __builtin_bswap32(x); }
static const uint32_t MAGIC = 0x464E5431;

// a Properties object that holds any list of up to 2^28 records
struct AnyProps {
    uint64_t* mem;
    uint64_t* old;
    size_t len;
    Properties p;
    AnyProps(bool sorted32) : len(qdv_any<uint64_t>("len"))
    {
        __qdv_assume(len < (1ull << 28));
        mem = qdv_array<uint64_t>(2 * len, "records");
        if (sorted32)
            __qdv_bound(mem, 1ull << 32);
        old = qdv_clone(mem);
        auto& v = p.props;
        v._M_impl._M_start = reinterpret_cast<Record*>(mem);
        v._M_impl._M_finish = v._M_impl._M_end_of_storage = reinterpret_cast<Record*>(mem) + len;
    }
    size_t location(size_t i) { return old[2 * i]; }
    uint32_t marker(size_t i) { return uint32_t(old[2 * i + 1]); }
    ~AnyProps()
    {
        auto& v = p.props;
        v._M_impl._M_start = v._M_impl._M_finish = v._M_impl._M_end_of_storage = nullptr;
    }
};
// a header of any size and contents
struct AnyHeader {
    uint32_t n;
    uint32_t* mem;
    uint32_t* old;
    AnyHeader() : n(qdv_any<uint32_t>("n_dwords"))
    {
        __qdv_assume(n < (1u << 28));
        mem = qdv_array<uint32_t>(n, "header");
        old = qdv_clone(mem);
    }
};
CONTRACT(serialize)
{
    AnyProps s(false);
    AnyHeader h;
    const int ret = s.p.fnt_serialize(h.mem, h.n);
    const uint32_t g = qdv_any<uint32_t>("g");
    __qdv_assume(g < h.n);
    __qdv_assert(ret == (s.len + 2 > h.n ? -1 : 0), "refused exactly when the records do not fit");
    const uint32_t want = ret ? h.old[g] : g == 0 ? swap32(MAGIC) : g == 1 ? swap32(uint32_t(s.len)) : g < s.len + 2 ? swap32(uint32_t(s.location(g - 2))) : 0;
    __qdv_assert(h.mem[g] == want, "magic, number of records, the locations in order, zeros up to the end; untouched when refused");
    const size_t r = qdv_any<uint64_t>("r");
    __qdv_assume(r < 2 * s.len);
    __qdv_assert(s.mem[r] == s.old[r], "the records are unchanged");
}
CONTRACT(serialize_empty)
{
    AnyHeader h;
    Properties p;
    const int ret = p.fnt_serialize(h.mem, h.n);
    const uint32_t g = qdv_any<uint32_t>("g");
    __qdv_assume(g < h.n);
    __qdv_assert(ret == (h.n < 2 ? -1 : 0), "two words are needed");
    __qdv_assert(h.mem[g] == (ret ? h.old[g] : g == 0 ? swap32(MAGIC) : 0), "an empty record");
}
// the calls of add made by fnt_deserialize
static struct {
    Properties* self;
    uint64_t* loc;
    uint64_t* mark;
    size_t n, n0;   // written from n0 on
} ghost;
static void ghost_init(Properties* p)
{
    ghost.self = p;
    ghost.loc = qdv_array<uint64_t>(1u << 29, "locs");
    ghost.mark = qdv_array<uint64_t>(1u << 29, "marks");
    ghost.n0 = qdv_any<uint64_t>("n0");
    __qdv_assume(ghost.n0 < (1u << 28));
    ghost.n = ghost.n0;
}
extern "C" void spec_props_add(Properties* self, size_t location, uint32_t marker)
{
    __qdv_assert(self == ghost.self, "added to the object");
    ghost.loc[ghost.n] = location;
    ghost.mark[ghost.n] = marker;
    ghost.n++;
}
CONTRACT(deserialize)
{
    AnyHeader h;
    Properties p;
    ghost_init(&p);
    const int ret = p.fnt_deserialize(h.mem, h.n);
    const bool bad = h.n < 2 || swap32(h.old[0]) != MAGIC || swap32(h.old[1]) > h.n - 2;
    __qdv_assert(ret == (bad ? -1 : 0), "refused exactly when it is not a record of the header's size");
    __qdv_assert(ghost.n - ghost.n0 == (bad ? 0 : swap32(h.old[1])), "one record per location");
    const size_t g = qdv_any<uint64_t>("g");
    if (g < ghost.n - ghost.n0) {
        __qdv_assert(ghost.loc[ghost.n0 + g] == swap32(h.old[g + 2]), "the locations in order");
        __qdv_assert(ghost.mark[ghost.n0 + g] == OOR_MARK, "marked as special symbols");
    }
    const uint32_t q = qdv_any<uint32_t>("q");
    __qdv_assume(q < h.n);
    __qdv_assert(h.mem[q] == h.old[q], "the header is unchanged");
}
// reading back what was written
CONTRACT(roundtrip)
{
    AnyProps s(true);
    AnyHeader h;
    __qdv_assume(s.len + 2 <= h.n);
    s.p.fnt_serialize(h.mem, h.n);
    Properties p;
    ghost_init(&p);
    const int ret = p.fnt_deserialize(h.mem, h.n);
    __qdv_assert(ret == 0 && ghost.n - ghost.n0 == s.len, "the same number of records");
    const size_t g = qdv_any<uint64_t>("g");
    if (g < s.len)
        __qdv_assert(ghost.loc[ghost.n0 + g] == s.location(g), "the same locations in the same order");
}
// look-ups
CONTRACT(lookup)
{
    AnyProps s(false);
    const size_t i = qdv_any<uint64_t>("i"), loc = qdv_any<uint64_t>("loc"), lo = qdv_any<uint64_t>("lo"), hi = qdv_any<uint64_t>("hi");
    const bool in = i < s.len;
    __qdv_assert(s.p.location(i) == (in ? s.location(i) : 0), "location of record i, or none");
    __qdv_assert(s.p.marker(i) == (in ? s.marker(i) : 0), "marker of record i, or none");
    __qdv_assert(s.p.is_marked(i, loc) == (in && s.location(i) == loc), "is_marked");
    __qdv_assert(s.p.in_range(i, lo, hi) == (in && s.location(i) >= lo && s.location(i) < hi), "in_range");
    __qdv_assert(s.p.get_map().size() == s.len, "the list");
}
// add: appended after up to 3 others; clear
CONTRACT(add)
{
    Properties p;
    size_t loc[4];
    uint32_t mark[4];
    for (int i = 0; i < 4; i++) {
        loc[i] = qdv_any<uint64_t>(i == 0 ? "l0" : i == 1 ? "l1" : i == 2 ? "l2" : "l3");
        mark[i] = qdv_any<uint32_t>(i == 0 ? "m0" : i == 1 ? "m1" : i == 2 ? "m2" : "m3");
        p.add(loc[i], mark[i]);
        __qdv_assert(p.get_map().size() == size_t(i + 1), "one more record");
        for (int j = 0; j <= i; j++)
            __qdv_assert(p.location(j) == loc[j] && p.marker(j) == mark[j], "the records in order");
    }
    p.clear();
    __qdv_assert(p.get_map().empty() && !p.is_marked(0, loc[0]), "no record after clear");
    p.add(loc[1], mark[1]);
    __qdv_assert(p.get_map().size() == 1 && p.location(0) == loc[1], "and it can be used again");
}
