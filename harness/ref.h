// Reference model of the Modbus application protocol and MBAP framing, written from
// "MODBUS Application Protocol Specification V1.1b3" and "MODBUS Messaging on TCP/IP
// Implementation Guide V1.0b" and from the library's public documentation. It shares no code
// with the library.
#ifndef VH_REF_H
#define VH_REF_H

#include "vh.h"

#include <vector>

namespace ref
{

using Bytes = std::vector<uint8_t>;

enum Fc : uint8_t
{
    RC = 1, RDI = 2, RHR = 3, RIR = 4, WSC = 5, WSR = 6, WMC = 15, WMR = 16
};
static const uint8_t ALL_FC[] = {1, 2, 3, 4, 5, 6, 15, 16};

inline bool is_read(uint8_t fc) { return fc >= 1 && fc <= 4; }
inline bool is_bits(uint8_t fc) { return fc == 1 || fc == 2; }
inline unsigned max_qty(uint8_t fc)
{
    switch(fc)
    {
    case RC: case RDI: return 2000;
    case RHR: case RIR: return 125;
    case WMC: return 1968;
    case WMR: return 123;
    default: return 1;
    }
}

// A request, in the application's terms.
struct Req
{
    uint8_t fc = 0;
    uint16_t addr = 0;
    uint16_t qty = 0;              // reads only
    std::vector<uint16_t> values;  // writes: one per value (0/1 for bits)
    bool operator==(const Req& o) const { return fc == o.fc && addr == o.addr && qty == o.qty && values == o.values; }
    bool operator!=(const Req& o) const { return !(*this == o); }
    bool valid() const
    {
        if(is_read(fc)) return qty >= 1 && qty <= max_qty(fc);
        if(fc == WMC || fc == WMR) return values.size() >= 1 && values.size() <= max_qty(fc);
        return true;
    }
    std::string str() const
    {
        std::ostringstream o;
        o << "fc" << (int)fc << "@" << addr << (is_read(fc) ? " qty=" : " n=") << (is_read(fc) ? (size_t)qty : values.size());
        if(!is_read(fc)) { o << " ["; for(size_t i = 0; i < values.size() && i < 6; ++i) o << values[i] << ","; o << "]"; }
        return o.str();
    }
};

// A response, in the application's terms: what a handler gets or a session returns.
struct Rsp
{
    enum Kind { VALUE, MODBUS_EX, MALFORMED, TIMEOUT, CONNECTION, BAD_REQUEST, OTHER } kind = VALUE;
    int ex = 0;                                            // MODBUS_EX: exception code, -1 for unknown
    std::vector<std::pair<uint16_t, uint16_t>> values;     // (address, value)
    uint16_t addr = 0, qty = 0;                            // write multiple
    std::string text;
    bool operator==(const Rsp& o) const
    {
        if(kind != o.kind) return false;
        if(kind == MODBUS_EX) return ex == o.ex;
        if(kind != VALUE) return true;
        return values == o.values && addr == o.addr && qty == o.qty;
    }
    bool operator!=(const Rsp& o) const { return !(*this == o); }
    std::string str() const
    {
        static const char* names[] = {"value", "modbus-exception", "malformed-response", "timeout", "connection-error", "malformed-request", "other"};
        std::ostringstream o;
        o << names[kind];
        if(kind == MODBUS_EX) o << "(" << ex << ")";
        if(kind == VALUE)
        {
            o << " n=" << values.size() << " addr=" << addr << " qty=" << qty << " [";
            for(size_t i = 0; i < values.size() && i < 6; ++i) o << values[i].first << ":" << values[i].second << ",";
            o << "]";
        }
        if(!text.empty()) o << " '" << text << "'";
        return o.str();
    }
};

inline void put16(Bytes& b, unsigned v) { b.push_back((uint8_t)(v >> 8)); b.push_back((uint8_t)v); }
inline unsigned get16(const Bytes& b, size_t i) { return ((unsigned)b[i] << 8) | b[i + 1]; }

inline Bytes pack_bits(const std::vector<uint16_t>& v)
{
    Bytes r((v.size() + 7) / 8, 0);
    for(size_t i = 0; i < v.size(); ++i) if(v[i]) r[i / 8] |= (uint8_t)(1u << (i % 8));
    return r;
}

inline Bytes encode_request(const Req& q)
{
    Bytes b{q.fc};
    put16(b, q.addr);
    if(is_read(q.fc)) put16(b, q.qty);
    else if(q.fc == WSC) put16(b, q.values[0] ? 0xFF00 : 0x0000);
    else if(q.fc == WSR) put16(b, q.values[0]);
    else if(q.fc == WMC)
    {
        put16(b, (unsigned)q.values.size());
        auto p = pack_bits(q.values);
        b.push_back((uint8_t)p.size());
        b.insert(b.end(), p.begin(), p.end());
    }
    else if(q.fc == WMR)
    {
        put16(b, (unsigned)q.values.size());
        b.push_back((uint8_t)(2 * q.values.size()));
        for(auto v : q.values) put16(b, v);
    }
    return b;
}

// Encoding of a normal response carrying these values.
inline Bytes encode_response(uint8_t fc, const Rsp& r)
{
    Bytes b{fc};
    if(is_bits(fc))
    {
        std::vector<uint16_t> v;
        for(auto& p : r.values) v.push_back(p.second);
        auto packed = pack_bits(v);
        b.push_back((uint8_t)packed.size());
        b.insert(b.end(), packed.begin(), packed.end());
    }
    else if(is_read(fc))
    {
        b.push_back((uint8_t)(2 * r.values.size()));
        for(auto& p : r.values) put16(b, p.second);
    }
    else if(fc == WSC) { put16(b, r.values[0].first); put16(b, r.values[0].second ? 0xFF00 : 0); }
    else if(fc == WSR) { put16(b, r.values[0].first); put16(b, r.values[0].second); }
    else { put16(b, r.addr); put16(b, r.qty); }
    return b;
}

inline Bytes exception_pdu(uint8_t fc, uint8_t code) { return Bytes{(uint8_t)(fc | 0x80), code}; }

inline Bytes adu(uint16_t tid, uint8_t unit, const Bytes& pdu, uint16_t protocol = 0)
{
    Bytes b;
    put16(b, tid);
    put16(b, protocol);
    put16(b, (unsigned)pdu.size() + 1);
    b.push_back(unit);
    b.insert(b.end(), pdu.begin(), pdu.end());
    return b;
}

// What a server must do with a PDU: nothing, refuse with an exception code, or hand a request
// to the session.
struct Decode
{
    enum Kind { SILENT, REFUSE, CALL } kind = SILENT;
    uint8_t code = 0;
    Req req;
};
inline Decode decode_request(const Bytes& p)
{
    Decode d;
    if(p.empty()) return d;
    uint8_t fc = p[0];
    auto refuse = [&](uint8_t c) { d.kind = Decode::REFUSE; d.code = c; return d; };
    d.req.fc = fc;
    if(is_read(fc))
    {
        if(p.size() != 5) return d;
        d.req.addr = (uint16_t)get16(p, 1);
        d.req.qty = (uint16_t)get16(p, 3);
        if(!d.req.valid()) return refuse(3);
    }
    else if(fc == WSC || fc == WSR)
    {
        if(p.size() != 5) return d;
        d.req.addr = (uint16_t)get16(p, 1);
        unsigned v = get16(p, 3);
        if(fc == WSC)
        {
            if(v != 0xFF00 && v != 0) return refuse(3);
            v = v ? 1 : 0;
        }
        d.req.values = {(uint16_t)v};
    }
    else if(fc == WMC || fc == WMR)
    {
        if(p.size() < 6) return d;
        d.req.addr = (uint16_t)get16(p, 1);
        unsigned qty = get16(p, 3), bytes = p[5];
        if(qty < 1 || qty > max_qty(fc)) return refuse(3);
        unsigned want = fc == WMC ? (qty + 7) / 8 : 2 * qty;
        if(bytes != want) return refuse(3);
        if(p.size() != 6 + bytes) return d;
        for(unsigned i = 0; i < qty; ++i)
            d.req.values.push_back(fc == WMC ? (uint16_t)((p[6 + i / 8] >> (i % 8)) & 1) : (uint16_t)get16(p, 6 + 2 * i));
    }
    else return refuse(1);
    d.kind = Decode::CALL;
    return d;
}

// Exception codes of the specification; anything else is unknown.
inline int known_exception(uint8_t c)
{
    switch(c)
    {
    case 1: case 2: case 3: case 4: case 5: case 6: case 8: case 0x0A: case 0x0B: return c;
    default: return -1;
    }
}

// What the application must be told when a response PDU answers a request.
inline Rsp decode_response(const Req& q, const Bytes& p)
{
    Rsp r;
    r.kind = Rsp::MALFORMED;
    if(p.empty() || (p[0] & 0x7F) != q.fc) return r;
    if(p[0] & 0x80)
    {
        if(p.size() != 2) return r;
        r.kind = Rsp::MODBUS_EX;
        r.ex = known_exception(p[1]);
        return r;
    }
    if(is_read(q.fc))
    {
        if(p.size() < 2 || p.size() - 2 != p[1]) return r;
        unsigned want = is_bits(q.fc) ? (q.qty + 7u) / 8 : 2u * q.qty;
        if(p[1] != want) return r;
        for(unsigned i = 0; i < q.qty; ++i)
        {
            uint16_t v = is_bits(q.fc) ? (uint16_t)((p[2 + i / 8] >> (i % 8)) & 1) : (uint16_t)get16(p, 2 + 2 * i);
            r.values.push_back({(uint16_t)(q.addr + i), v});
        }
    }
    else
    {
        if(p.size() != 5) return r;
        unsigned a = get16(p, 1), v = get16(p, 3);
        if(q.fc == WSC)
        {
            if(v != 0xFF00 && v != 0) return r;
            r.values.push_back({(uint16_t)a, (uint16_t)(v ? 1 : 0)});
        }
        else if(q.fc == WSR) r.values.push_back({(uint16_t)a, (uint16_t)v});
        else { r.addr = (uint16_t)a; r.qty = (uint16_t)v; }
    }
    r.kind = Rsp::VALUE;
    return r;
}

// MBAP framing of a byte stream: each frame that carries protocol 0 and at least a unit
// identifier is a message; PDU bytes past the protocol's maximum of 253 are dropped.
struct Frame
{
    uint16_t tid;
    uint8_t unit;
    Bytes pdu;
};
inline std::vector<Frame> split_stream(const Bytes& s)
{
    std::vector<Frame> out;
    size_t i = 0;
    while(s.size() - i >= 7)
    {
        unsigned tid = get16(s, i), proto = get16(s, i + 2), len = get16(s, i + 4);
        if(len == 0) { i += 7; continue; } // a header without content: the 7 header bytes are skipped
        if(s.size() - i < 6 + len) break;
        if(proto == 0)
        {
            Frame f{(uint16_t)tid, s[i + 6], Bytes(s.begin() + i + 7, s.begin() + i + 6 + len)};
            if(f.pdu.size() > 253) f.pdu.resize(253);
            out.push_back(std::move(f));
        }
        i += 6 + len;
    }
    return out;
}

// ---- generators ----
inline Req random_request(vh::Rng& r, bool valid = true)
{
    Req q;
    q.fc = ALL_FC[r.below(8)];
    q.addr = r.edge16();
    unsigned m = max_qty(q.fc);
    auto pick_qty = [&]() -> unsigned {
        if(!valid) return r.chance(1, 2) ? 0 : m + 1 + (unsigned)r.below(r.chance(1, 2) ? 3 : 60000 - m);
        switch(r.below(5))
        {
        case 0: return 1;
        case 1: return m;
        case 2: return m - (unsigned)r.below(9);
        case 3: return 1 + (unsigned)r.below(24 < m ? 24 : m);
        default: return 1 + (unsigned)r.below(m);
        }
    };
    if(is_read(q.fc)) q.qty = (uint16_t)pick_qty();
    else
    {
        if(!valid && (q.fc == WSC || q.fc == WSR)) q.fc = r.chance(1, 2) ? WMC : WMR, m = max_qty(q.fc);
        unsigned n = (q.fc == WMC || q.fc == WMR) ? pick_qty() : 1;
        bool bits = q.fc == WSC || q.fc == WMC;
        int style = (int)r.below(4);
        for(unsigned i = 0; i < n; ++i)
            q.values.push_back(bits ? (uint16_t)(style == 0 ? 1 : style == 1 ? 0 : r.below(2)) : r.edge16());
    }
    return q;
}

// Deterministic content of a simulated device.
inline uint16_t device_value(uint8_t unit, uint8_t fc, uint16_t addr, uint64_t salt)
{
    uint8_t b[4] = {unit, fc, (uint8_t)(addr >> 8), (uint8_t)addr};
    uint64_t h = vh::fnv(b, 4, 1469598103934665603ull ^ salt * 0x9E3779B97F4A7C15ull);
    h ^= h >> 29;
    return is_bits(fc) ? (uint16_t)((h >> 7) & 1) : (uint16_t)(h >> 11);
}
inline Rsp device_response(uint8_t unit, const Req& q, uint64_t salt)
{
    Rsp r;
    if(is_read(q.fc))
        for(unsigned i = 0; i < q.qty; ++i)
        {
            uint16_t a = (uint16_t)(q.addr + i);
            r.values.push_back({a, device_value(unit, q.fc, a, salt)});
        }
    else if(q.fc == WSC || q.fc == WSR) r.values.push_back({q.addr, q.values[0]});
    else { r.addr = q.addr; r.qty = (uint16_t)q.values.size(); }
    return r;
}

} // namespace ref

#endif
