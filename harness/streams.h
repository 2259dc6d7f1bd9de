// Drive any codec through its stream interfaces.
#pragma once
#include "common.h"
#include "quadiron.h"
using namespace quadiron;
typedef std::string Str; typedef std::vector<Str> SV;
// records of one fragment, as stored in text form by an application
typedef std::vector<std::pair<size_t, uint32_t>> Rec;
struct Enc { SV out; std::vector<Properties> props; };
static inline std::vector<Rec> recs(const std::vector<Properties>& p) { std::vector<Rec> r; for (auto& x : p) { Rec q = x.get_map(); std::sort(q.begin(), q.end()); r.push_back(q); } return r; }
template <typename T> Enc enc_streams(fec::FecCode<T>& f, const SV& data, bool vertical, const std::vector<bool>* want = nullptr)
{
    std::vector<std::istringstream> in; std::vector<std::ostringstream> out(f.n_outputs); for (auto& d : data) in.emplace_back(d);
    std::vector<std::istream*> ip; for (auto& s : in) ip.push_back(&s);
    std::vector<std::ostream*> op; for (unsigned i = 0; i < f.n_outputs; i++) op.push_back(want && !(*want)[i] ? nullptr : &out[i]);
    Enc e; e.props.resize(f.n_outputs); for (auto& p : e.props) p.add(hx::R(9), 1); // must be cleared
    if (vertical) f.encode_streams_vertical(ip, op, e.props); else f.encode_streams_horizontal(ip, op, e.props);
    for (auto& o : out) e.out.push_back(o.str());
    return e;
}
// avail: per fragment of the code (data first when systematic)
template <typename T> bool dec_streams(fec::FecCode<T>& f, const SV& data, const Enc& e, const std::vector<int>& miss, bool vertical, SV& res, const std::vector<bool>* want = nullptr)
{
    bool sys = f.type == fec::FecType::SYSTEMATIC; unsigned k = f.n_data;
    std::vector<std::istringstream> in, par; std::vector<std::ostringstream> out(k);
    for (unsigned i = 0; i < k; i++) in.emplace_back(sys ? data[i] : Str()); for (auto& s : e.out) par.emplace_back(s);
    std::vector<std::istream*> ip, pp; std::vector<std::ostream*> op;
    for (unsigned i = 0; i < k; i++) { ip.push_back(sys && !miss[i] ? &in[i] : nullptr); op.push_back(want && !(*want)[i] ? nullptr : &out[i]); }
    for (unsigned i = 0; i < f.n_outputs; i++) pp.push_back(miss[sys ? k + i : i] ? nullptr : &par[i]);
    std::vector<Properties> props = e.props;
    bool ok = vertical ? f.decode_streams_vertical(ip, pp, props, op) : f.decode_streams_horizontal(ip, pp, props, op);
    res.clear(); for (auto& o : out) res.push_back(o.str());
    return ok;
}
static inline SV rdata(unsigned k, size_t bytes, int mode)
{
    SV d(k, Str(bytes, 0)); 
    for (auto& s : d) for (auto& c : s) c = (char)(mode == 0 ? hx::R() : mode == 1 ? 255 : mode == 3 ? (hx::R(4) ? 0 : hx::R()) : mode == 4 ? (hx::coin() ? 0xff : 0x80) : mode == 5 ? (hx::coin(3) ? hx::R(2) : 0) : 0);
    return d;
}
static inline std::vector<int> erase(int tot, int cnt) { std::vector<int> m(tot, 0), p(tot); for (int i = 0; i < tot; i++) p[i] = i; std::shuffle(p.begin(), p.end(), hx::rng()); for (int i = 0; i < cnt; i++) m[p[i]] = 1; return m; }
// data mostly made so that symbol sums hit 65536 (per 16-bit word)
static inline void special16(SV& d) { for (size_t t = 0; t + 1 < d[0].size(); t += 2) { uint32_t s = 0; for (size_t i = 1; i < d.size(); i++) s += (uint8_t)d[i][t] | (uint8_t)d[i][t + 1] << 8; uint32_t w = (65536u + 65537u - s % 65537u) % 65537u; if (w == 65536) w = 0; if (hx::coin()) { d[0][t] = (char)w; d[0][t + 1] = (char)(w >> 8); } } }
