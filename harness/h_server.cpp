// The server under raw, scripted peers. Oracle: the reference model in ref.h.
#define VH_INTERPOSE
#include "net.h"
#include "lib.h"

using namespace vh;
using ref::Bytes;
using ref::Req;
using ref::Rsp;

// How much faster the durations of the stand-in executor's timers pass.
static std::atomic<unsigned> hurried{1};
namespace exe4cpp { unsigned hurry(); unsigned hurry() { return hurried; } }

namespace
{

// What the simulated devices answer, by address, so that peers can compute it too.
Rsp device_plan(uint8_t unit, const Req& q, uint64_t salt, bool with_errors)
{
    if(with_errors)
    {
        uint8_t b[5] = {unit, q.fc, (uint8_t)(q.addr >> 8), (uint8_t)q.addr, 77};
        uint64_t h = fnv(b, 5, salt ^ 0xABCDEF);
        h ^= h >> 31;
        if(h % 4 == 0)
        {
            Rsp r;
            r.kind = Rsp::MODBUS_EX;
            r.ex = lib::KNOWN_CODES[(h >> 8) % 9];
            return r;
        }
        if(h % 4 == 1 && (h >> 20) % 4 == 0)
        {
            Rsp r;
            r.kind = Rsp::OTHER;
            return r;
        }
    }
    return ref::device_response(unit, q, salt);
}

struct Server
{
    std::unique_ptr<modbus::IModbusManager> mgr;
    std::shared_ptr<modbus::IServerChannel> ch;
    std::map<uint8_t, std::shared_ptr<lib::RecSession>> sessions;
    std::string host = net::own_host();
    uint16_t port = net::next_port();
    uint64_t salt;
    bool with_errors;
    std::atomic<bool> busy{false};

    Server(uint64_t salt_, const std::vector<int>& units, unsigned max_conn = 16, unsigned threads = 3, bool with_errors_ = true)
        : salt(salt_), with_errors(with_errors_)
    {
        mgr = modbus::IModbusManager::create(lib::counting_logger(), threads);
        ch = mgr->create_server_tcp_channel("srv", modbus::Ipv4Endpoint{host, port}, max_conn, modbus::LoggingLevel::Trace);
        for(int u : units) add(u);
        ch->start();
    }
    void add(int u)
    {
        auto s = std::make_shared<lib::RecSession>((uint8_t)u, [this](uint8_t unit, const Req& q) { return device_plan(unit, q, salt, with_errors); });
        s->busy = &busy;
        sessions[(uint8_t)u] = s;
        ch->add_session(modbus::UnitIdentifier{(uint8_t)u}, s);
    }
    ~Server()
    {
        lib::end_manager(mgr, "server-end-hangs");
        ch.reset();
    }
    net::Sock connect(int rcvbuf = 0)
    {
        auto s = net::connect_to(host, port, rcvbuf, 50);
        if(!s.ok()) violation("server-connect-refused", "a peer could not connect to the listening server", true);
        return s;
    }
};

// Expected reaction to one frame.
struct Expect
{
    bool reply = false;
    Bytes adu;
    bool call = false;
    Req req;
};
Expect expect(Server& s, const ref::Frame& f)
{
    Expect e;
    if(!s.sessions.count(f.unit)) return e;
    auto d = ref::decode_request(f.pdu);
    if(d.kind == ref::Decode::SILENT) return e;
    if(d.kind == ref::Decode::REFUSE)
    {
        e.reply = true;
        e.adu = ref::adu(f.tid, f.unit, ref::exception_pdu(f.pdu[0], d.code));
        return e;
    }
    e.call = true;
    e.req = d.req;
    auto r = device_plan(f.unit, d.req, s.salt, s.with_errors);
    if(r.kind == Rsp::VALUE)
    {
        e.reply = true;
        e.adu = ref::adu(f.tid, f.unit, ref::encode_response(d.req.fc, r));
    }
    else if(r.kind == Rsp::MODBUS_EX)
    {
        e.reply = true;
        e.adu = ref::adu(f.tid, f.unit, ref::exception_pdu(d.req.fc, (uint8_t)r.ex));
    }
    return e;
}

// ---- generators ----
struct Mix
{
    int valid = 50, mutated = 20, random_pdu = 8, other_protocol = 6, empty_pdu = 4, zero_length = 3, oversize = 4, unknown_unit = 5, bad_fc = 5;
    int total() const { return valid + mutated + random_pdu + other_protocol + empty_pdu + zero_length + oversize + unknown_unit + bad_fc; }
};
Bytes mutate_pdu(Rng& r, Bytes p)
{
    switch(r.below(9))
    {
    case 0: // truncate
        p.resize(r.below(p.size() + 1));
        break;
    case 1: // extend
    {
        size_t n = 1 + r.below(r.chance(1, 3) ? 200 : 3);
        for(size_t i = 0; i < n && p.size() < 253; ++i) p.push_back(r.u8());
        break;
    }
    case 2: // quantity / coil value
        if(p.size() >= 5) { uint16_t v = r.edge16(); p[3] = (uint8_t)(v >> 8); p[4] = (uint8_t)v; }
        break;
    case 3: // byte count
        if(p.size() >= 6) p[5] = r.chance(1, 2) ? (uint8_t)(p[5] + (r.chance(1, 2) ? 1 : -1)) : r.u8();
        break;
    case 4: // quantity off by one, byte count left
        if(p.size() >= 6) { unsigned v = ref::get16(p, 3) + (r.chance(1, 2) ? 1 : -1); p[3] = (uint8_t)(v >> 8); p[4] = (uint8_t)v; }
        break;
    case 5: // function code
        if(!p.empty()) p[0] = r.chance(1, 2) ? ref::ALL_FC[r.below(8)] : r.u8();
        break;
    case 6: // bit flip
        if(!p.empty()) p[r.below(p.size())] ^= (uint8_t)(1u << r.below(8));
        break;
    case 7: // quantity beyond the limit with a byte count that matches modulo 256
        if(!p.empty() && (p[0] == 15 || p[0] == 16))
        {
            unsigned q = p[0] == 15 ? 1969 + (unsigned)r.below(200) : 124 + (unsigned)r.below(200);
            unsigned bc = p[0] == 15 ? (q + 7) / 8 : 2 * q;
            p.resize(6);
            p[3] = (uint8_t)(q >> 8); p[4] = (uint8_t)q; p[5] = (uint8_t)bc;
            for(unsigned i = 0; i < (bc & 0xff) && p.size() < 253; ++i) p.push_back(r.u8());
        }
        break;
    default: // one byte shorter or longer with a consistent byte count
        if(p.size() > 6) { if(r.chance(1, 2)) { p.pop_back(); p[5]--; } else { p.push_back(r.u8()); p[5]++; } if(p.size() > 253) p.resize(253); }
        break;
    }
    return p;
}

// One raw frame for the wire.
Bytes random_frame(Rng& r, Server& s, const Mix& mix, const std::vector<int>& units)
{
    uint16_t tid = r.edge16();
    uint8_t unit = (uint8_t)r.pick(units);
    int k = (int)r.below((uint64_t)mix.total());
    auto hit = [&](int w) { if(k < w) return true; k -= w; return false; };
    auto valid_pdu = [&] { return ref::encode_request(ref::random_request(r)); };
    if(hit(mix.valid)) return ref::adu(tid, unit, valid_pdu());
    if(hit(mix.mutated)) return ref::adu(tid, unit, mutate_pdu(r, valid_pdu()));
    if(hit(mix.random_pdu))
    {
        Bytes p(r.below(r.chance(1, 2) ? 12 : 254));
        for(auto& b : p) b = r.u8();
        if(!p.empty() && r.chance(2, 3)) p[0] = ref::ALL_FC[r.below(8)];
        return ref::adu(tid, unit, p);
    }
    if(hit(mix.other_protocol)) return ref::adu(tid, unit, valid_pdu(), r.chance(1, 2) ? (uint16_t)(1u << r.below(16)) : (uint16_t)(1 + r.below(65535)));
    if(hit(mix.empty_pdu)) return ref::adu(tid, unit, Bytes{});
    if(hit(mix.zero_length))
    {
        auto a = ref::adu(tid, unit, Bytes{});
        a[4] = a[5] = 0;
        return a;
    }
    if(hit(mix.oversize))
    {
        size_t n = r.chance(2, 3) ? 254 + r.below(12) : 254 + r.below(1500);
        Bytes p(n);
        bool looks_valid = r.chance(1, 2);
        for(auto& b : p) b = r.u8();
        if(looks_valid)
        {
            // content that, if it were taken for frames, would be answered
            auto inner = ref::adu(0x5151, unit, ref::encode_request(ref::random_request(r)));
            for(size_t i = 0; i < p.size(); ++i) p[i] = inner[i % inner.size()];
        }
        p[0] = r.chance(1, 2) ? ref::ALL_FC[r.below(8)] : (uint8_t)(0x11 + r.below(50));
        return ref::adu(tid, unit, p);
    }
    if(hit(mix.unknown_unit))
    {
        uint8_t u = r.u8();
        while(s.sessions.count(u)) ++u;
        return ref::adu(tid, u, valid_pdu());
    }
    uint8_t fc;
    do fc = r.u8();
    while(std::find(std::begin(ref::ALL_FC), std::end(ref::ALL_FC), fc) != std::end(ref::ALL_FC));
    Bytes p = valid_pdu();
    p[0] = fc;
    if(r.chance(1, 3)) p.resize(1 + r.below(p.size()));
    return ref::adu(tid, unit, p);
}

// Sends the stream cut into random pieces.
bool send_cut(Rng& r, net::Sock& c, const Bytes& s, int style)
{
    size_t i = 0;
    while(i < s.size())
    {
        size_t n = style == 0 ? s.size() : style == 1 ? 1 + r.below(9) : 1 + r.below(300);
        if(n > s.size() - i) n = s.size() - i;
        if(!c.write(s.data() + i, n)) return false;
        i += n;
        if(style == 1 && r.chance(1, 8)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(60)));
    }
    return true;
}

// Runs one stream on one connection and checks every reply and every session call.
// Calls are checked only when this connection is the only one (calls == true).
bool run_stream(Rng& r, Server& s, net::Sock& c, const std::vector<Bytes>& frames, int cut, bool calls, const std::string& tag)
{
    Bytes stream;
    for(auto& f : frames)
        // the very same bytes again are another request
        for(uint64_t n = frames.size() > 1 && r.chance(1, 10) ? 2 + r.below(4) : 1; n > 0; --n) stream.insert(stream.end(), f.begin(), f.end());
    // sentinel: an unsupported function code is always refused with exception 1
    uint8_t sunit = s.sessions.begin()->first;
    auto sentinel = ref::adu(0xA55A, sunit, Bytes{0x63});
    stream.insert(stream.end(), sentinel.begin(), sentinel.end());
    auto parsed = ref::split_stream(stream);
    std::vector<Bytes> want;
    std::map<uint8_t, std::vector<Req>> want_calls;
    for(auto& f : parsed)
    {
        auto e = expect(s, f);
        if(e.reply) want.push_back(e.adu);
        if(e.call) want_calls[f.unit].push_back(e.req);
        count(e.call ? "frames.to_session" : e.reply ? "frames.refused" : "frames.silent");
    }
    count("frames.on_wire", frames.size());
    std::thread writer([&] { Rng wr(r.next()); send_cut(wr, c, stream, cut); });
    bool ok = true;
    for(size_t i = 0; i < want.size(); ++i)
    {
        Bytes got;
        if(!c.adu(got))
        {
            violation("server-missing-reply", tag + ": reply " + std::to_string(i) + "/" + std::to_string(want.size()) + " never came (stream " + (c.ended() ? "ended" : "open") +
                      ", buffered " + hex(c.in) + "); expected " + hex(want[i]) + "; sent " + hex(stream, 4000), !c.ended());
            ok = false;
            break;
        }
        if(got != want[i])
        {
            violation("server-wrong-reply", tag + ": reply " + std::to_string(i) + " is " + hex(got) + ", expected " + hex(want[i]) + "; sent " + hex(stream, 4000));
            ok = false;
            break;
        }
        count("replies.checked");
    }
    writer.join();
    if(ok && !c.quiet())
    {
        violation("server-extra-reply", tag + ": unexpected bytes after the last reply: " + hex(c.in) + "; sent " + hex(stream, 4000));
        ok = false;
    }
    if(calls)
    {
        for(auto& kv : s.sessions)
        {
            auto got = kv.second->take_calls();
            if(!ok) continue;
            auto& w = want_calls[kv.first];
            if(got != w)
            {
                std::ostringstream o;
                o << tag << ": session of unit " << (int)kv.first << " saw " << got.size() << " requests, expected " << w.size();
                for(size_t i = 0; i < got.size() || i < w.size(); ++i)
                    if(i >= got.size() || i >= w.size() || got[i] != w[i])
                    {
                        o << "; first difference at " << i << ": saw " << (i < got.size() ? got[i].str() : "-") << " expected " << (i < w.size() ? w[i].str() : "-");
                        break;
                    }
                o << "; sent " << hex(stream, 4000);
                violation("server-session-calls", o.str());
                ok = false;
            }
            count("session_calls.checked", got.size());
        }
    }
    distinct(fnv(stream.data(), stream.size(), (uint64_t)cut + 11));
    return ok;
}

void set_faults(Rng& r, bool short_send)
{
    static const uint32_t cuts[] = {0, 1, 2, 5, 7, 13, 64, 300};
    net::faults().recv_max = cuts[r.below(8)];
    static const uint32_t scuts[] = {0, 1, 3, 9, 20, 100};
    net::faults().send_max = short_send ? scuts[r.below(6)] : 0;
    net::faults().send_again = !short_send || r.chance(2, 3) ? 0 : r.chance(1, 2) ? 30 : 200;
    net::faults().io_delay = r.chance(1, 4) ? 300 : 0;
    net::faults().handler_delay = r.chance(1, 4) ? 300 : 0;
}
void note_faults()
{
    count("injected.short_recv", net::faults().n_short_recv.exchange(0));
    count("injected.short_send", net::faults().n_short_send.exchange(0));
    count("injected.put_off_to_io_threads", net::faults().n_send_again.exchange(0));
    count("injected.delays", net::faults().n_delays.exchange(0));
    count("injected.accept_fail", net::faults().n_accept_fail.exchange(0));
}

std::vector<int> random_units(Rng& r)
{
    std::vector<int> pool{0, 1, 2, 127, 128, 247, 254, 255};
    std::vector<int> u;
    for(int x : pool) if(r.chance(1, 3)) u.push_back(x);
    if(u.empty()) u.push_back((int)r.below(256));
    return u;
}

void stream_scenario(const Mix& mix, long quick, long thorough_n)
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long n = ctx().cases(quick, thorough_n);
    long done = 0;
    while(done < n)
    {
        auto units = random_units(r);
        Server s(r.next(), units);
        long batch = std::min<long>(n - done, 150);
        auto c = s.connect();
        if(!c.ok()) return;
        for(long i = 0; i < batch; ++i, ++done)
        {
            set_faults(r, r.chance(1, 3));
            std::vector<Bytes> frames;
            size_t k = 1 + r.below(r.chance(1, 4) ? 40 : 12);
            for(size_t j = 0; j < k; ++j) frames.push_back(random_frame(r, s, mix, units));
            if(done < 2) sample("unit " + std::to_string(units[0]) + ", " + std::to_string(k) + " frames, first " + hex(frames[0], 40));
            if(!run_stream(r, s, c, frames, (int)r.below(3), true, "case " + std::to_string(done)))
            {
                c = s.connect();
                if(!c.ok()) return;
                for(auto& kv : s.sessions) kv.second->take_calls();
                if(ctx().violations > 20) return;
            }
            count("streams");
        }
        note_faults();
    }
}

// The same bytes under many segmentations must produce the same replies and calls.
void sc_segment()
{
    Mix m;
    m.mutated = m.random_pdu = m.bad_fc = 0; // what is wrong here is the framing only
    m.valid = 60;
    m.oversize = 10;
    m.other_protocol = 10;
    m.zero_length = 8;
    m.empty_pdu = 8;
    stream_scenario(m, 700, 12000);
}
void sc_validate()
{
    Mix m;
    m.valid = 20;
    m.mutated = 60;
    m.random_pdu = 20;
    m.other_protocol = m.zero_length = m.oversize = m.unknown_unit = 1;
    stream_scenario(m, 700, 12000);
}
void sc_values()
{
    Mix m;
    m.valid = 100;
    m.mutated = m.random_pdu = m.other_protocol = m.empty_pdu = m.zero_length = m.oversize = 0;
    m.unknown_unit = m.bad_fc = 3;
    stream_scenario(m, 700, 12000);
}

// Every declared length around the limits, alone and followed by a valid request, at every cut point of the header.
void sc_lengths()
{
    Rng r(ctx().seed);
    std::vector<int> units{1, 17};
    Server s(r.next(), units);
    auto c = s.connect();
    std::vector<unsigned> lens;
    for(unsigned l = 0; l <= 12; ++l) lens.push_back(l);
    for(unsigned l = 245; l <= 270; ++l) lens.push_back(l);
    for(unsigned l : {300u, 512u, 1023u, 4096u, 32767u, 32768u, 65534u, 65535u}) lens.push_back(l);
    for(unsigned l : lens)
        for(uint32_t cut : {0u, 1u, 3u, 6u, 7u, 8u, 11u, 260u, 261u, 4096u})
            for(unsigned proto : {0u, 1u, 256u})
            {
                if(!ctx().thorough() && ((l > 300 && cut && cut < 12) || (l > 2000 && proto == 256))) continue;
                net::faults().recv_max = cut;
                Bytes f = ref::adu((uint16_t)(l * 7 + proto), (uint8_t)r.pick(units), Bytes(l ? l - 1 : 0, 0), (uint16_t)proto);
                f[4] = (uint8_t)(l >> 8);
                f[5] = (uint8_t)l;
                for(size_t i = 7; i < f.size(); ++i) f[i] = r.u8();
                if(f.size() > 7) f[7] = r.chance(1, 2) ? 0x44 : ref::ALL_FC[r.below(8)];
                std::vector<Bytes> frames{f, ref::adu(0x7777, 17, ref::encode_request(ref::random_request(r)))};
                if(!run_stream(r, s, c, frames, (int)r.below(2), true, "length " + std::to_string(l) + " cut " + std::to_string(cut) + " protocol " + std::to_string(proto)))
                {
                    c = s.connect();
                    for(auto& kv : s.sessions) kv.second->take_calls();
                    if(ctx().violations > 12) return;
                }
                count("streams");
            }
    note_faults();
    sample("declared lengths 0..12, 245..270, 300..65535 x receive cuts x protocol ids");
}

// A frame without a PDU must be answered by nothing, and it must not wait for later bytes:
// checked by the client side (h_client), here only that later frames are unaffected (sc_segment).

// Several connections at once: each peer gets exactly its own replies, in its own order.
void multi(bool backpressure, long quick, long thorough_n)
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long rounds = ctx().cases(quick, thorough_n);
    for(long round = 0; round < rounds; ++round)
    {
        auto units = random_units(r);
        if(backpressure) net::faults().sndbuf = 4608;
        Server s(r.next(), units, 16, 1 + (unsigned)r.below(4));
        set_faults(r, true);
        int conns = 2 + (int)r.below(backpressure ? 4 : 10);
        std::vector<std::thread> ts;
        std::vector<uint64_t> seeds;
        for(int i = 0; i < conns; ++i) seeds.push_back(r.next());
        for(int i = 0; i < conns; ++i)
            ts.emplace_back([&, i] {
                Rng tr(seeds[(size_t)i]);
                auto c = s.connect(backpressure ? 4096 : 0);
                if(!c.ok()) return;
                Mix m;
                m.mutated = m.random_pdu = 5;
                for(int b = 0; b < 3; ++b)
                {
                    std::vector<Bytes> frames;
                    size_t k = backpressure ? 60 + tr.below(200) : 5 + tr.below(30);
                    for(size_t j = 0; j < k; ++j)
                    {
                        if(backpressure && tr.chance(3, 4))
                        {
                            Req q;
                            q.fc = (uint8_t)(1 + tr.below(4));
                            q.addr = tr.u16();
                            q.qty = (uint16_t)ref::max_qty(q.fc);
                            frames.push_back(ref::adu(tr.u16(), (uint8_t)tr.pick(units), ref::encode_request(q)));
                        }
                        else frames.push_back(random_frame(tr, s, m, units));
                    }
                    if(backpressure && tr.chance(1, 2))
                    {
                        // let replies pile up before reading
                        std::this_thread::sleep_for(std::chrono::milliseconds(tr.below(8)));
                    }
                    if(!run_stream(tr, s, c, frames, (int)tr.below(2) * 2, false, "connection " + std::to_string(i) + " round " + std::to_string(round))) return;
                    count("streams");
                }
            });
        for(auto& t : ts) t.join();
        note_faults();
        net::faults().sndbuf = 0;
        if(ctx().violations > 12) return;
    }
    sample("2-12 concurrent connections, up to 260 pipelined requests each, short writes and small socket buffers");
}
void sc_multi() { multi(false, 16, 300); }
void sc_backpressure() { multi(true, 5, 150); }

// Peer that pipelines without reading anything until the end.
void sc_slow_reader()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long rounds = ctx().cases(14, 60);
    for(long round = 0; round < rounds; ++round)
    {
        std::vector<int> units{1, 2};
        net::faults().sndbuf = 4608;
        net::faults().recv_max = 0;
        static const uint32_t scuts[] = {0, 1, 50, 200};
        net::faults().send_max = scuts[r.below(4)];
        net::faults().send_again = r.chance(2, 3) ? 0 : r.chance(1, 2) ? 30 : 200;
        Server s(r.next(), units);
        auto c = s.connect(4096);
        if(!c.ok()) return;
        Bytes stream;
        std::vector<Bytes> want;
        size_t k = 300 + r.below(500);
        for(size_t j = 0; j < k; ++j)
        {
            Req q;
            q.fc = (uint8_t)(1 + r.below(4));
            q.addr = r.u16();
            q.qty = (uint16_t)(1 + r.below(ref::max_qty(q.fc)));
            uint8_t u = (uint8_t)r.pick(units);
            auto f = ref::adu((uint16_t)j, u, ref::encode_request(q));
            auto e = expect(s, ref::Frame{(uint16_t)j, u, ref::encode_request(q)});
            for(uint64_t n = r.chance(1, 6) ? 2 + r.below(4) : 1; n > 0; --n)
            {
                if(e.reply) want.push_back(e.adu);
                stream.insert(stream.end(), f.begin(), f.end());
            }
        }
        std::thread w([&] { c.write(stream); });
        std::this_thread::sleep_for(std::chrono::milliseconds(30 + r.below(50)));
        bool ok = true;
        for(size_t i = 0; i < want.size() && ok; ++i)
        {
            Bytes got;
            if(!c.adu(got)) { violation("server-missing-reply", "slow reader: reply " + std::to_string(i) + " of " + std::to_string(want.size()) + " never came", !c.ended()); ok = false; }
            else if(got != want[i]) { violation("server-wrong-reply", "slow reader: reply " + std::to_string(i) + " is " + hex(got) + ", expected " + hex(want[i])); ok = false; }
            count("replies.checked");
        }
        if(!ok) c.reset_close();
        w.join();
        if(ok && !c.quiet()) violation("server-extra-reply", "slow reader: bytes after the last reply");
        distinct(fnv(stream.data(), stream.size()));
        count("streams");
        note_faults();
        net::faults().sndbuf = 0;
        if(ctx().violations > 5) return;
    }
    sample("300-800 pipelined reads written before the first reply is read, small socket buffers, short writes");
}

// ---- routing, replacement, defaults ----
class BareSession : public modbus::IServerSession {};

// One session at each unit in turn: requests to all the 255 others must be ignored.
static bool each_unit(Rng& r)
{
    for(int k = 0; k < 256; ++k)
    {
        uint8_t u = (uint8_t)(k * 85 + 255); // 255 first
        auto mgr = modbus::IModbusManager::create(lib::null_logger(), 1);
        auto host = net::own_host();
        auto port = net::next_port();
        auto ch = mgr->create_server_tcp_channel("srv", modbus::Ipv4Endpoint{host, port});
        uint64_t sl = r.next();
        auto s = std::make_shared<lib::RecSession>(u, [sl](uint8_t unit, const Req& q) { return ref::device_response(unit, q, sl); });
        ch->add_session(modbus::UnitIdentifier{u}, s);
        ch->start();
        auto c = net::connect_to(host, port, 0, 50);
        if(!c.ok()) { violation("server-connect-refused", "each unit", true); return false; }
        Bytes stream;
        std::vector<Bytes> want;
        std::vector<Req> calls;
        for(int i = 0; i < 257; ++i)
        {
            uint8_t v = i == 256 ? u : (uint8_t)i;
            auto q = ref::random_request(r);
            auto f = ref::adu((uint16_t)i, v, ref::encode_request(q));
            stream.insert(stream.end(), f.begin(), f.end());
            if(v != u) { count("routed.unknown_unit"); continue; }
            want.push_back(ref::adu((uint16_t)i, v, ref::encode_response(q.fc, ref::device_response(u, q, sl))));
            calls.push_back(q);
            count("routed.session");
        }
        c.write(stream);
        for(auto& w : want)
        {
            Bytes got;
            if(!c.adu(got)) { violation("server-missing-reply", "one session, unit " + std::to_string(u), !c.ended()); return false; }
            if(got != w)
            {
                violation("server-wrong-reply", "one session at unit " + std::to_string(u) + " and requests to all units: got " + hex(got) + " expected " + hex(w));
                return false;
            }
            count("replies.checked");
        }
        if(s->take_calls() != calls) { violation("server-session-calls", "one session at unit " + std::to_string(u) + " was called for other units"); return false; }
        count("units.alone");
    }
    return true;
}

void sc_routing()
{
    Rng r(ctx().seed);
    if(!each_unit(r)) return;
    long rounds = ctx().cases(100, 900);
    for(long round = 0; round < rounds; ++round)
    {
        auto mgr = modbus::IModbusManager::create(lib::null_logger(), 2);
        auto host = net::own_host();
        auto port = net::next_port();
        auto ch = mgr->create_server_tcp_channel("srv", modbus::Ipv4Endpoint{host, port});
        std::map<uint8_t, std::shared_ptr<lib::RecSession>> current;
        std::map<uint8_t, uint64_t> salt;
        std::vector<std::shared_ptr<lib::RecSession>> replaced;
        std::set<uint8_t> bare;
        // a few units, with neighbours and special ones among them
        static const uint8_t special[] = {0, 1, 247, 248, 255};
        std::vector<uint8_t> pool;
        for(int i = 0; i < 4; ++i) pool.push_back(r.chance(1, 2) ? special[r.below(5)] : r.u8());
        for(int i = 0; i < 3; ++i) pool.push_back((uint8_t)(pool[r.below(pool.size())] ^ (1u << r.below(8))));
        for(auto& x : pool) if(x == 250) x = 249;
        bool started = false;
        std::vector<net::Sock> conns;
        int ops = 12 + (int)r.below(20);
        std::ostringstream log;
        bool stop = false;
        int focus = -1; // for a while only one unit is used
        auto pick = [&](uint64_t n, uint64_t of) -> uint8_t {
            if(focus >= 0 && !r.chance(1, 10)) return (uint8_t)focus;
            return r.chance(n, of) ? pool[r.below(pool.size())] : r.u8();
        };
        for(int op = 0; op < ops && !stop; ++op)
        {
            if(r.chance(1, 5)) focus = r.chance(1, 2) ? -1 : (int)pool[r.below(pool.size())];
            int k = (int)r.below(10);
            if(k < 3)
            {
                uint8_t u = pick(3, 4);
                uint64_t sl = r.next();
                log << "add(" << (int)u << ") ";
                if(current.count(u)) { replaced.push_back(current[u]); count("sessions.replaced"); }
                bare.erase(u);
                auto s = std::make_shared<lib::RecSession>(u, [sl](uint8_t unit, const Req& q) { return ref::device_response(unit, q, sl); });
                current[u] = s;
                salt[u] = sl;
                ch->add_session(modbus::UnitIdentifier{u}, s);
                count("sessions.added");
            }
            else if(k == 3)
            {
                uint8_t u = pick(1, 1);
                log << "bare(" << (int)u << ") ";
                if(current.count(u)) replaced.push_back(current[u]);
                current.erase(u);
                bare.insert(u);
                ch->add_session(modbus::UnitIdentifier{u}, std::make_shared<BareSession>());
            }
            else if(!started)
            {
                log << "start ";
                ch->start();
                started = true;
            }
            else
            {
                if(conns.empty() || (conns.size() < 4 && r.chance(1, 3)))
                {
                    conns.push_back(net::connect_to(host, port, 0, 50));
                    if(!conns.back().ok()) { violation("server-connect-refused", "could not connect after start", true); return; }
                }
                auto& c = conns[r.below(conns.size())];
                Bytes stream;
                std::vector<Bytes> want;
                std::map<uint8_t, std::vector<Req>> calls;
                int n = 1 + (int)r.below(8);
                for(int i = 0; i < n; ++i)
                {
                    uint8_t u = pick(5, 6);
                    auto q = ref::random_request(r);
                    uint16_t tid = r.u16();
                    auto f = ref::adu(tid, u, ref::encode_request(q));
                    stream.insert(stream.end(), f.begin(), f.end());
                    if(current.count(u))
                    {
                        want.push_back(ref::adu(tid, u, ref::encode_response(q.fc, ref::device_response(u, q, salt[u]))));
                        calls[u].push_back(q);
                        count("routed.session");
                    }
                    else if(bare.count(u)) { want.push_back(ref::adu(tid, u, ref::exception_pdu(q.fc, 1))); count("routed.default"); }
                    else count("routed.unknown_unit");
                }
                // often a sentinel, through a unit of its own
                const bool sentinel = want.empty() || r.chance(1, 2);
                uint8_t su = 250;
                if(sentinel)
                {
                ch->add_session(modbus::UnitIdentifier{su}, std::make_shared<BareSession>());
                if(current.count(su)) { replaced.push_back(current[su]); current.erase(su); }
                bare.insert(su);
                auto f = ref::adu(0xBEEF, su, Bytes{0x01, 0, 0, 0, 1});
                // requests to unit 250 above were computed with the old routing only if they precede this add
                bool used250 = false;
                for(auto& p : ref::split_stream(stream)) used250 |= p.unit == su;
                if(used250) continue;
                stream.insert(stream.end(), f.begin(), f.end());
                want.push_back(ref::adu(0xBEEF, su, Bytes{0x81, 1}));
                }
                c.write(stream);
                log << "exchange(" << n << ") ";
                for(size_t i = 0; i < want.size(); ++i)
                {
                    Bytes got;
                    if(!c.adu(got)) { violation("server-missing-reply", "routing [" + log.str() + "]: expected " + hex(want[i]), !c.ended()); stop = true; break; }
                    if(got != want[i]) { violation("server-wrong-reply", "routing [" + log.str() + "]: got " + hex(got) + " expected " + hex(want[i]) + " sent " + hex(stream, 3000)); stop = true; break; }
                    count("replies.checked");
                }
                if(stop) break;
                for(auto& kv : current)
                {
                    auto got = kv.second->take_calls();
                    if(got != calls[kv.first]) { violation("server-session-calls", "routing [" + log.str() + "]: unit " + std::to_string(kv.first) + " saw " + std::to_string(got.size()) + " requests, expected " + std::to_string(calls[kv.first].size())); stop = true; }
                }
                for(auto& s : replaced)
                    if(s->calls()) { violation("replaced-session-called", "routing [" + log.str() + "]: a session that had been replaced was called"); stop = true; }
                distinct(fnv(stream.data(), stream.size(), fnv(log.str())));
            }
        }
        if(round == 0) sample(log.str());
        count("histories");
        lib::end_manager(mgr, "server-end-hangs");
        if(ctx().violations > 10) return;
    }
}

// Session outcomes -> wire exception codes.
void sc_exceptions()
{
    Rng r(ctx().seed);
    auto mgr = modbus::IModbusManager::create(lib::null_logger(), 2);
    auto host = net::own_host();
    auto port = net::next_port();
    auto ch = mgr->create_server_tcp_channel("srv", modbus::Ipv4Endpoint{host, port});
    std::atomic<int> code{0};
    auto s = std::make_shared<lib::RecSession>(9, [&](uint8_t, const Req& q) {
        Rsp x;
        int c = code;
        if(c == 0) return ref::device_response(9, q, 5);
        x.kind = c < 0 ? Rsp::OTHER : Rsp::MODBUS_EX;
        x.ex = c;
        return x;
    });
    ch->add_session(modbus::UnitIdentifier{9}, s);
    ch->start();
    auto c = net::connect_to(host, port, 0, 50);
    if(!c.ok()) { violation("server-connect-refused", "exceptions", true); return; }
    std::vector<int> codes(std::begin(lib::KNOWN_CODES), std::end(lib::KNOWN_CODES));
    codes.push_back(-1);
    codes.push_back(0);
    long rounds = ctx().cases(80, 600);
    for(long i = 0; i < rounds; ++i)
        for(uint8_t fc : ref::ALL_FC)
            for(int k : codes)
            {
                Req q;
                do q = ref::random_request(r);
                while(q.fc != fc);
                code = k;
                uint16_t tid = r.u16();
                c.write(ref::adu(tid, 9, ref::encode_request(q)));
                Bytes want, got;
                if(k > 0) want = ref::adu(tid, 9, ref::exception_pdu(fc, (uint8_t)k));
                else if(k == 0) want = ref::adu(tid, 9, ref::encode_response(fc, ref::device_response(9, q, 5)));
                else
                {
                    // a failure without a Modbus code is not answered: the sentinel's reply comes first
                    c.write(ref::adu(0x1234, 9, Bytes{0x64}));
                    want = ref::adu(0x1234, 9, Bytes{0xE4, 1});
                }
                if(!c.adu(got)) { violation("server-missing-reply", "exception code " + std::to_string(k) + " for fc " + std::to_string(fc), !c.ended()); return; }
                if(got != want)
                {
                    violation("exception-code-on-wire", "session outcome " + std::to_string(k) + " for " + q.str() + ": reply " + hex(got) + ", expected " + hex(want));
                    if(got.size() != want.size()) return;
                }
                count("outcome.code_" + std::to_string(k));
                count("replies.checked");
                distinct(((uint64_t)fc << 32) ^ ((uint64_t)(k + 2) << 40) ^ q.addr);
            }
    // and every unsupported function code
    for(int fc = 0; fc < 256; ++fc)
    {
        if(std::find(std::begin(ref::ALL_FC), std::end(ref::ALL_FC), (uint8_t)fc) != std::end(ref::ALL_FC)) continue;
        code = 0;
        c.write(ref::adu((uint16_t)fc, 9, Bytes{(uint8_t)fc, 1, 2, 3, 4}));
        Bytes got;
        auto want = ref::adu((uint16_t)fc, 9, Bytes{(uint8_t)(fc | 0x80), 1});
        if(!c.adu(got) || got != want) { violation("unsupported-function", "function code " + std::to_string(fc) + ": reply " + hex(got) + ", expected " + hex(want)); return; }
        count("unsupported_fc");
    }
    if(s->take_calls().size() != (size_t)rounds * 8 * codes.size()) violation("server-session-calls", "wrong number of calls in the exception sweep");
    sample("8 functions x 9 exception types + non-Modbus error + success; 248 unsupported function codes");
}

// ---- connection limit ----
bool alive(Rng& r, net::Sock& c, uint64_t salt, uint8_t unit, const std::string& what, bool report = true)
{
    auto q = ref::random_request(r);
    uint16_t tid = r.u16();
    if(!c.write(ref::adu(tid, unit, ref::encode_request(q))))
    {
        if(report) violation("connection-lost", what + ": the server closed a connection it should keep");
        return false;
    }
    Bytes got;
    auto want = ref::adu(tid, unit, ref::encode_response(q.fc, ref::device_response(unit, q, salt)));
    if(!c.adu(got))
    {
        if(report) violation(c.ended() ? "connection-lost" : "server-missing-reply", what + ": no reply on a connection that should work", !c.ended());
        return false;
    }
    if(got != want)
    {
        violation("server-wrong-reply", what + ": " + hex(got) + " expected " + hex(want));
        return false;
    }
    count("replies.checked");
    return true;
}

void sc_limit()
{
    Rng r(ctx().seed);
    long rounds = ctx().cases(200, 800);
    for(long round = 0; round < rounds; ++round)
    {
        unsigned max = 1 + (unsigned)r.below(r.chance(1, 6) ? 18 : 5);
        bool use_default = r.chance(1, 10);
        if(use_default) max = 16;
        uint64_t salt = r.next();
        auto mgr = modbus::IModbusManager::create(lib::null_logger(), 1 + (unsigned)r.below(3));
        auto host = net::own_host();
        auto port = net::next_port();
        auto ch = use_default ? mgr->create_server_tcp_channel("srv", modbus::Ipv4Endpoint{host, port})
                              : mgr->create_server_tcp_channel("srv", modbus::Ipv4Endpoint{host, port}, max);
        ch->add_session(modbus::UnitIdentifier{1}, std::make_shared<lib::RecSession>(1, [salt](uint8_t u, const Req& q) { return ref::device_response(u, q, salt); }));
        ch->start();
        std::vector<net::Sock> open; // oldest first, as the model keeps them
        std::ostringstream log;
        log << "max=" << max << ": ";
        bool bad = false;
        int ops = 10 + (int)r.below(25);
        size_t evictions = 0;
        for(int op = 0; op < ops && !bad; ++op)
        {
            if(open.empty() || r.chance(3, 5))
            {
                log << "connect ";
                auto c = net::connect_to(host, port, 0, 50);
                if(!c.ok()) { violation("server-connect-refused", log.str(), true); bad = true; break; }
                if(!alive(r, c, salt, 1, log.str() + "(new connection)")) { bad = true; break; }
                open.push_back(std::move(c));
                count("connections");
                if(open.size() > max)
                {
                    if(!open.front().wait_end()) { violation("oldest-not-closed", log.str() + ": " + std::to_string(open.size()) + " connections are open, the oldest was not closed", true); bad = true; break; }
                    open.erase(open.begin());
                    ++evictions;
                    count("evictions");
                }
            }
            else if(r.chance(1, 2))
            {
                size_t i = r.below(open.size());
                log << "close#" << i << " ";
                // half-close and wait for the server's close, so that it has noticed
                if(r.chance(1, 2)) open[i].write(Bytes{0, 1, 0, 0}); // mid-frame
                open[i].half_close();
                if(!open[i].wait_end()) { violation("peer-close-not-followed", log.str() + ": the server did not close a connection its peer closed", true); bad = true; break; }
                open.erase(open.begin() + (long)i);
                count("peer_closes");
            }
            else if(!open.empty())
            {
                size_t i = r.below(open.size());
                log << "use#" << i << " ";
                if(!alive(r, open[i], salt, 1, log.str())) bad = true;
            }
            if(!bad && r.chance(1, 4))
                for(size_t i = 0; i < open.size() && !bad; ++i)
                    if(!alive(r, open[i], salt, 1, log.str() + "(sweep)")) bad = true;
        }
        if(!bad)
            for(size_t i = 0; i < open.size() && !bad; ++i)
                if(!alive(r, open[i], salt, 1, log.str() + "(final sweep)")) bad = true;
        distinct(fnv(log.str()));
        if(round < 2) sample(log.str());
        count("histories");
        if(ctx().violations > 6) return;
    }
}

// Accepting must survive failures of accept and dirty disconnects.
void sc_accept_fault()
{
    Rng r(ctx().seed);
    long rounds = ctx().cases(14, 150);
    for(long round = 0; round < rounds; ++round)
    {
        uint64_t salt = r.next();
        unsigned max = 2 + (unsigned)r.below(3);
        auto mgr = modbus::IModbusManager::create(lib::null_logger(), 2);
        auto host = net::own_host();
        auto port = net::next_port();
        auto ch = mgr->create_server_tcp_channel("srv", modbus::Ipv4Endpoint{host, port}, max);
        ch->add_session(modbus::UnitIdentifier{1}, std::make_shared<lib::RecSession>(1, [salt](uint8_t u, const Req& q) { return ref::device_response(u, q, salt); }));
        ch->start();
        std::vector<net::Sock> open;
        std::ostringstream log;
        log << "max=" << max << ": ";
        int ops = 8;
        for(int op = 0; op < ops; ++op)
        {
            static const int errs[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM, ECONNABORTED, EPROTO, EPERM};
            int e = errs[r.below(7)];
            int n = r.chance(1, 2) ? 1 + (int)r.below(2) : 0;
            net::faults().accept_errno = e;
            net::faults().accept_errors = n;
            log << "accept-fails(" << n << "," << strerror(e) << ") connect ";
            auto c = net::connect_to(host, port, 0, 50);
            if(!c.ok()) { violation("server-connect-refused", log.str(), true); break; }
            // the connection may have been the one that failed; a working one must be obtained within a few attempts
            bool works = false;
            for(int attempt = 0; attempt < 6 && !works; ++attempt)
            {
                works = alive(r, c, salt, 1, log.str(), false);
                if(!works) { if(!c.ended()) break; c = net::connect_to(host, port, 0, 50); }
            }
            net::faults().accept_errors = 0;
            if(!works) { violation("accept-stopped", log.str() + ": after a failed accept the server serves no new connection", true); break; }
            open.push_back(std::move(c));
            count("connections");
            if(open.size() > max)
            {
                if(!open.front().wait_end()) { violation("oldest-not-closed", log.str(), true); break; }
                open.erase(open.begin());
                count("evictions");
            }
            bool bad = false;
            for(auto& o : open) if(!alive(r, o, salt, 1, log.str() + "(sweep)")) bad = true;
            if(bad) break;
        }
        note_faults();
        count("histories");
        distinct(fnv(log.str()));
        if(round == 0) sample(log.str());
        if(ctx().violations > 3) return;
    }
}

// Peers that vanish mid-frame or mid-reply must not disturb the others or later connections.
void sc_dirty()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long rounds = ctx().cases(200, 400);
    for(long round = 0; round < rounds; ++round)
    {
        uint64_t salt = r.next();
        auto mgr = modbus::IModbusManager::create(lib::null_logger(), 1 + (unsigned)r.below(3));
        auto host = net::own_host();
        auto port = net::next_port();
        auto ch = mgr->create_server_tcp_channel("srv", modbus::Ipv4Endpoint{host, port}, 8);
        auto sess = std::make_shared<lib::RecSession>(1, [salt](uint8_t u, const Req& q) { return ref::device_response(u, q, salt); });
        ch->add_session(modbus::UnitIdentifier{1}, sess);
        ch->start();
        net::faults().recv_max = r.chance(1, 2) ? 1 + (uint32_t)r.below(10) : 0;
        auto good = net::connect_to(host, port, 0, 50);
        if(!good.ok()) { violation("server-connect-refused", "dirty", true); return; }
        if(!alive(r, good, salt, 1, "before")) return;
        std::ostringstream log;
        for(int k = 0; k < 12; ++k)
        {
            auto bad = net::connect_to(host, port, 0, 50);
            if(!bad.ok()) { violation("server-connect-refused", "dirty " + log.str(), true); return; }
            Bytes s;
            int full = (int)r.below(4);
            for(int i = 0; i < full; ++i) { auto f = ref::adu(r.u16(), 1, ref::encode_request(ref::random_request(r))); s.insert(s.end(), f.begin(), f.end()); }
            auto f = ref::adu(r.u16(), 1, ref::encode_request(ref::random_request(r)));
            s.insert(s.end(), f.begin(), f.begin() + (long)r.below(f.size()));
            bad.write(s);
            int how = (int)r.below(4);
            log << "vanish(full=" << full << ",how=" << how << ") ";
            if(how == 0) bad.reset_close();
            else if(how == 1) { bad.half_close(); if(!bad.wait_end()) violation("peer-close-not-followed", log.str(), true); }
            else if(how == 2) { std::this_thread::sleep_for(std::chrono::microseconds(r.below(500))); bad.reset_close(); }
            else bad.close();
            count("dirty_disconnects");
            if(!alive(r, good, salt, 1, "bystander after " + log.str())) return;
            if(r.chance(1, 3))
            {
                auto fresh = net::connect_to(host, port, 0, 50);
                if(!fresh.ok() || !alive(r, fresh, salt, 1, "fresh connection after " + log.str())) return;
                fresh.half_close();
                fresh.wait_end();
            }
        }
        distinct(fnv(log.str()));
        count("histories");
        if(round == 0) sample(log.str());
    }
    note_faults();
}

// Every quantity of every kind; every address, value, transaction and unit identifier; every length of a PDU.
void sc_sweep()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    std::vector<int> units;
    for(int u = 0; u < 256; ++u) units.push_back(u);
    Server s(r.next(), units, 16, 2, false);
    net::Sock c;
    std::vector<Bytes> batch;
    std::string part;
    bool ok = true;
    auto flush = [&](size_t at_least) {
        if(!ok || batch.size() < at_least || batch.empty()) return;
        if(!c.ok())
        {
            c = s.connect();
            if(!c.ok()) { ok = false; return; }
        }
        net::faults().recv_max = r.chance(2, 3) ? 0 : 1 + (uint32_t)r.below(400);
        if(!run_stream(r, s, c, batch, (int)r.below(2) * 2, true, "sweep of " + part))
        {
            c.close();
            for(auto& kv : s.sessions) kv.second->take_calls();
            if(ctx().violations > 6) ok = false;
        }
        batch.clear();
        count("streams");
    };
    const uint64_t base = r.next() | 1;
    uint32_t n = 0;
    auto add = [&](const Bytes& pdu) {
        // all the identifiers, in another order for every seed
        uint16_t tid = (uint16_t)(n * base);
        batch.push_back(ref::adu(tid, (uint8_t)(n * 37 + (n >> 8)), pdu));
        ++n;
        count("swept." + part);
        flush(400);
    };
    part = "quantities";
    for(uint8_t fc : {1, 2, 3, 4, 15, 16})
        for(unsigned q = 1; q <= ref::max_qty(fc); ++q)
        {
            Req x;
            x.fc = fc;
            x.addr = r.edge16();
            if(fc < 5) x.qty = (uint16_t)q;
            else for(unsigned i = 0; i < q; ++i) x.values.push_back(fc == 15 ? (uint16_t)r.below(2) : r.u16());
            add(ref::encode_request(x));
        }
    part = "addresses";
    for(uint32_t a = 0; a < 65536 && ok; ++a)
    {
        Req x;
        x.addr = (uint16_t)a;
        uint8_t kinds[] = {1, 2, 3, 4, 5, 15, 16};
        x.fc = a % 2 ? 6 : kinds[(a / 2 + base) % 7];
        if(x.fc == 6) x.values = {(uint16_t)((a >> 1) * (base | 1))};
        else if(x.fc == 5) x.values = {(uint16_t)(a >> 4 & 1)};
        else if(x.fc >= 15) x.values = {1, 0};
        else x.qty = (uint16_t)(1 + a % 3);
        add(ref::encode_request(x));
    }
    part = "values";
    for(uint32_t a = 0; a < 32768 && ok; ++a)
    {
        // with the odd ones above all values
        Req x;
        x.addr = r.u16();
        x.fc = 6;
        x.values = {(uint16_t)((a + 32768) * (base | 1))};
        add(ref::encode_request(x));
    }
    part = "wrong_quantities";
    for(uint8_t fc : {1, 2, 3, 4, 15, 16})
    {
        const unsigned m = ref::max_qty(fc);
        std::set<unsigned> qs{0};
        for(unsigned i = 1; i < 150; ++i) qs.insert(m + i);
        for(unsigned b = 0; b < 16; ++b) for(int d = -9; d < 10; ++d) qs.insert((1u << b) + (unsigned)d & 0xffff);
        for(unsigned k = 1; k < 256; ++k) qs.insert(k << 8 | (unsigned)r.below(256));
        for(unsigned k = 1; k < 256; ++k) qs.insert(k << 8);
        for(long k = 0; k < ctx().cases(0, 40000); ++k) qs.insert(r.u16());
        for(unsigned q : qs)
        {
            if(q >= 1 && q <= m) continue;
            Bytes p{fc, r.u8(), r.u8(), (uint8_t)(q >> 8), (uint8_t)q};
            if(fc > 4)
            {
                unsigned bc = fc == 15 ? (q + 7) / 8 : 2 * q;
                bc = r.chance(2, 3) ? bc & 0xff : (unsigned)r.below(247);
                p.push_back((uint8_t)bc);
                for(unsigned i = 0; i < bc && p.size() < 253; ++i) p.push_back(r.u8());
            }
            add(p);
        }
    }
    part = "byte_counts";
    for(uint8_t fc : {15, 16})
        for(unsigned q = 1; q <= ref::max_qty(fc); ++q)
        {
            unsigned bc = fc == 15 ? (q + 7) / 8 : 2 * q;
            for(int d : {-1, 1, 2})
            {
                if(fc == 15 && d != (q % 2 ? 1 : -1) && q % 16) continue;
                unsigned w = bc + (unsigned)d;
                // the byte count is wrong; the data agree with it or with the quantity
                unsigned len = r.chance(1, 2) ? w : bc;
                Bytes p{fc, r.u8(), r.u8(), (uint8_t)(q >> 8), (uint8_t)q, (uint8_t)w};
                for(unsigned i = 0; i < len && p.size() < 253; ++i) p.push_back(r.u8());
                add(p);
            }
        }
    part = "coil_values";
    for(uint32_t v = 0; v < 65536 && ok; ++v)
    {
        if((v & 0xff) && (v >> 8) && (v >> 8) != 0xff && !r.chance(1, ctx().thorough() ? 1 : 30)) continue;
        add(Bytes{5, r.u8(), r.u8(), (uint8_t)(v >> 8), (uint8_t)v});
    }
    part = "lengths";
    for(unsigned len = 0; len <= 253 && ok; ++len)
        for(uint8_t fc : {1, 2, 3, 4, 5, 6, 15, 16, 0, 7, 23, 128, 131, 255})
        {
            Bytes p(len);
            for(auto& b : p) b = r.chance(1, 2) ? 0 : r.u8();
            if(len) p[0] = fc;
            if(len >= 5) { p[3] = 0; p[4] = (uint8_t)(1 + r.below(100)); }
            if(len >= 6 && r.chance(1, 2)) p[5] = (uint8_t)(len - 6);
            add(p);
        }
    flush(1);
    note_faults();
    net::faults().recv_max = 0;
    sample("all valid quantities, addresses, 256 units, 65536 transaction identifiers and register values; wrong quantities, byte counts, coil values and lengths");
}

// Thousands of replies queued for a peer which does not read, while another peer is served.
void sc_deep_backlog()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    // the last two are small: these peers vanish, or the server ends, with everything queued
    std::vector<size_t> sizes{67000, 3000, 3000};
    if(ctx().thorough()) sizes = {150000, 67000, 30000, 3000, 3000};
    for(size_t k = 0; k < sizes.size(); ++k)
    {
        const bool vanish = k + 2 == sizes.size(), end = k + 1 == sizes.size();
        std::vector<int> units{1, 2, 3};
        net::faults().sndbuf = 4608;
        net::faults().recv_max = net::faults().send_max = net::faults().send_again = 0;
        Server s(r.next(), units, 4, 1 + (unsigned)r.below(3), false);
        auto c = s.connect(4096);
        net::faults().sndbuf = 0;
        auto other = s.connect();
        if(!c.ok() || !other.ok()) return;
        const size_t n = sizes[k];
        struct Item { uint16_t tid; uint8_t unit; Req q; };
        std::vector<Item> items;
        items.reserve(n);
        Bytes stream;
        for(size_t i = 0; i < n; ++i)
        {
            Item it;
            it.tid = (uint16_t)i;
            it.unit = (uint8_t)(1 + r.below(2));
            it.q.fc = (uint8_t)(3 + r.below(2));
            it.q.addr = r.u16();
            it.q.qty = i < 200 ? 125 : (uint16_t)(1 + r.below(3));
            if(i > 0 && r.chance(1, 4)) it = items.back(); // the very same request again
            auto f = ref::adu(it.tid, it.unit, ref::encode_request(it.q));
            stream.insert(stream.end(), f.begin(), f.end());
            items.push_back(it);
        }
        std::thread w([&] { c.write(stream); });
        // until everything was answered (or the server reads no further, which it may)
        size_t seen = 0;
        auto moved = Clock::now();
        uint64_t probes = 0;
        bool ok = true;
        while(ok)
        {
            size_t now = s.sessions[1]->calls() + s.sessions[2]->calls();
            if(now != seen) { seen = now; moved = Clock::now(); }
            if(now >= n || Clock::now() - moved > std::chrono::seconds(3)) break;
            auto q = ref::random_request(r);
            uint16_t tid = r.u16();
            other.write(ref::adu(tid, 3, ref::encode_request(q)));
            Bytes got;
            auto want = ref::adu(tid, 3, ref::encode_response(q.fc, ref::device_response(3, q, s.salt)));
            if(!other.adu(got)) { violation("server-missing-reply", "while " + std::to_string(now) + " replies wait for a peer which does not read, another peer is not answered", !other.ended()); ok = false; }
            else if(got != want) { violation("server-wrong-reply", "to a peer beside one which does not read: " + hex(got) + ", expected " + hex(want)); ok = false; }
            else ++probes;
        }
        count("replies.beside_a_backlog", probes);
        count("replies.queued", seen);
        if(vanish || end) c.reset_close();
        else
            for(size_t i = 0; i < n && ok; ++i)
            {
                auto& it = items[i];
                Bytes got, want = ref::adu(it.tid, it.unit, ref::encode_response(it.q.fc, ref::device_response(it.unit, it.q, s.salt)));
                if(!c.adu(got)) { violation("server-missing-reply", "backlog of " + std::to_string(n) + " requests: reply " + std::to_string(i) + " never came", !c.ended()); ok = false; }
                else if(got != want) { violation("server-wrong-reply", "backlog of " + std::to_string(n) + " requests: reply " + std::to_string(i) + " is " + hex(got) + ", expected " + hex(want)); ok = false; }
                count("replies.checked");
            }
        if(!ok) c.reset_close();
        w.join();
        if(ok && !vanish && !end)
        {
            if(!c.quiet()) violation("server-extra-reply", "backlog: bytes after the last reply");
            std::map<uint8_t, std::vector<Req>> want;
            for(auto& it : items) want[it.unit].push_back(it.q);
            for(uint8_t u : {1, 2})
                if(s.sessions[u]->take_calls() != want[u]) violation("server-session-calls", "backlog of " + std::to_string(n) + " requests: the session of unit " + std::to_string(u) + " was called otherwise");
            if(!run_stream(r, s, c, {ref::adu(1, 1, ref::encode_request(ref::random_request(r)))}, 0, false, "after a backlog")) ok = false;
        }
        if(vanish && ok)
        {
            run_stream(r, s, other, {ref::adu(1, 1, ref::encode_request(ref::random_request(r)))}, 0, false, "after a peer vanished with a backlog");
            auto fresh = s.connect();
            if(fresh.ok()) run_stream(r, s, fresh, {ref::adu(1, 2, ref::encode_request(ref::random_request(r)))}, 0, false, "new connection after a peer vanished with a backlog");
        }
        distinct(fnv(stream.data(), stream.size()));
        count("streams");
        count("frames", n);
        note_faults();
        if(ctx().violations > 3) return;
    }
    sample("67000 reads written without reading a reply, another peer served meanwhile; then all replies read and compared");
}

// Long histories of accepting: hundreds of failures in a row, thousands of connections, large limits.
void sc_accept_long()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    auto serve = [&](std::unique_ptr<modbus::IModbusManager>& mgr, std::string& host, uint16_t& port, unsigned max, uint64_t salt) {
        host = net::own_host();
        port = net::next_port();
        auto ch = mgr->create_server_tcp_channel("srv", modbus::Ipv4Endpoint{host, port}, max);
        ch->add_session(modbus::UnitIdentifier{1}, std::make_shared<lib::RecSession>(1, [salt](uint8_t u, const Req& q) { return ref::device_response(u, q, salt); }));
        ch->start();
        return ch;
    };
    std::string host;
    uint16_t port;
    // ---- failures of accepting in a row; the stand-in executor lets the pause between them pass faster ----
    for(long round = 0; round < ctx().cases(6, 30); ++round)
    {
        uint64_t salt = r.next();
        auto mgr = modbus::IModbusManager::create(lib::counting_logger(), 1 + (unsigned)r.below(3));
        auto ch = serve(mgr, host, port, 8 + (unsigned)r.below(9), salt); // room for connections whose end is not yet noticed
        static const int errs[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM, ECONNABORTED, EPERM};
        int e = errs[(size_t)round % 6];
        std::string what = "after a long series of failing accepts (" + std::string(strerror(e)) + ")";
        std::vector<net::Sock> open;
        if(r.chance(1, 2))
        {
            open.push_back(net::connect_to(host, port, 0, 50));
            if(!open[0].ok() || !alive(r, open[0], salt, 1, "first connection")) return;
        }
        auto before = net::faults().n_accept_fail.load();
        int many = 300 + (int)r.below(300);
        net::faults().accept_errno = e;
        net::faults().accept_errors = many;
        hurried = 500;
        auto end = Clock::now() + std::chrono::seconds(6);
        net::Sock waiting = net::connect_to(host, port, 0, 50);
        while(net::faults().accept_errors > 0 && Clock::now() < end)
        {
            if(e == ECONNABORTED) { waiting = net::connect_to(host, port, 0, 50); std::this_thread::sleep_for(std::chrono::microseconds(300)); }
            else
            {
                if(!open.empty() && !alive(r, open[0], salt, 1, "during a long series of failing accepts (" + std::string(strerror(e)) + ")")) break;
                std::this_thread::sleep_for(std::chrono::milliseconds(2));
            }
        }
        net::faults().accept_errors = 0;
        hurried = 1;
        count("accept_failures_in_a_row", net::faults().n_accept_fail.load() - before);
        auto c = net::connect_to(host, port, 0, 50);
        if(!c.ok()) violation("server-connect-refused", what, true);
        else if(!alive(r, c, salt, 1, what, false)) violation("accept-stopped", what + " the server serves no new connection", true);
        if(!open.empty()) alive(r, open[0], salt, 1, what + ", the first connection");
        count("histories");
        distinct(fnv(what) ^ (uint64_t)many);
        lib::end_manager(mgr, "server-end-hangs");
        if(ctx().violations > 3) return;
    }
    note_faults();
    // ---- thousands of connections, one after the other, beside one which stays ----
    for(unsigned max : {2u, 1u, 3u})
    {
        uint64_t salt = r.next();
        auto mgr = modbus::IModbusManager::create(lib::null_logger(), 2);
        auto ch = serve(mgr, host, port, max, salt);
        long n = ctx().cases(1500, 40000);
        net::Sock good;
        if(max > 1)
        {
            good = net::connect_to(host, port, 0, 50);
            if(!good.ok() || !alive(r, good, salt, 1, "first connection")) return;
        }
        bool ok = true;
        for(long i = 0; i < n && ok; ++i)
        {
            std::string what = "connection " + std::to_string(i) + " of a long series, limit " + std::to_string(max);
            auto c = net::connect_to(host, port, 0, 50);
            if(!c.ok()) { violation("server-connect-refused", what, true); break; }
            if(r.chance(3, 4)) ok = alive(r, c, salt, 1, what);
            if(!ok) break;
            c.half_close();
            if(!c.wait_end()) { violation("peer-close-not-followed", what, true); break; }
            count("connections_in_a_row");
            if(good.ok() && i % 50 == 0) ok = alive(r, good, salt, 1, "the connection beside " + what);
        }
        if(ok && good.ok()) alive(r, good, salt, 1, "the connection beside a long series");
        count("histories");
        lib::end_manager(mgr, "server-end-hangs");
        if(ctx().violations > 3) return;
    }
    // ---- many at once ----
    for(unsigned max : {64u, 300u})
    {
        uint64_t salt = r.next();
        auto mgr = modbus::IModbusManager::create(lib::null_logger(), 1 + (unsigned)r.below(3));
        auto ch = serve(mgr, host, port, max, salt);
        std::vector<net::Sock> open;
        bool ok = true;
        for(unsigned i = 0; i < max + 50 && ok; ++i)
        {
            std::string what = "connection " + std::to_string(i) + ", limit " + std::to_string(max);
            auto c = net::connect_to(host, port, 0, 50);
            if(!c.ok()) { violation("server-connect-refused", what, true); return; }
            ok = alive(r, c, salt, 1, what);
            open.push_back(std::move(c));
            count("connections");
            if(!ok || open.size() <= max) continue;
            if(!open.front().wait_end()) { violation("oldest-not-closed", what, true); ok = false; }
            open.erase(open.begin());
            count("evictions");
        }
        for(size_t i = 0; i < open.size() && ok; ++i) ok = alive(r, open[i], salt, 1, "one of " + std::to_string(open.size()) + " connections");
        count("histories");
        lib::end_manager(mgr, "server-end-hangs");
        for(auto& o : open)
            if(ok && !o.wait_end()) { violation("server-end-open", "a connection stayed open after the end of the manager", true); break; }
        if(ctx().violations > 3) return;
    }
    sample("300-600 failing accepts in a row of each kind; 3 x 1500 connections in a row; 350 at once with limit 300");
}

} // namespace

int main(int argc, char** argv)
{
    return run_main(argc, argv, {{"segment", sc_segment}, {"validate", sc_validate}, {"values", sc_values}, {"lengths", sc_lengths},
                                 {"multi", sc_multi}, {"backpressure", sc_backpressure}, {"slow_reader", sc_slow_reader},
                                 {"routing", sc_routing}, {"exceptions", sc_exceptions}, {"limit", sc_limit},
                                 {"accept_fault", sc_accept_fault}, {"dirty", sc_dirty},
                                 {"sweep", sc_sweep}, {"deep_backlog", sc_deep_backlog}, {"accept_long", sc_accept_long}});
}
