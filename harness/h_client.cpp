// The client under raw, scripted servers. Oracle: the reference model in ref.h.
#define VH_INTERPOSE
#include "net.h"
#include <deque>
#include "lib.h"

using namespace vh;
using ref::Bytes;
using ref::Req;
using ref::Rsp;
using std::chrono::duration_cast;

namespace
{

constexpr auto LONG = std::chrono::minutes(30); // a timeout that never passes here
const auto DEFAULT = modbus::duration_t(-1);

struct Rec
{
    int id = 0;
    uint8_t unit = 1;
    Req req;
    modbus::duration_t timeout = LONG;
    bool use_default = false;
    int thread = 0, seq = 0;
    // what happened
    std::atomic<int> calls{0};
    std::atomic<bool> done{false};
    Rsp rsp;
    Clock::time_point t_submit, t_done;
    // the harness's own view
    std::atomic<int> frames{0};
    Rsp want;
    bool want_known = false;
    std::string str() const { return "#" + std::to_string(id) + " unit " + std::to_string(unit) + " " + req.str(); }
};
using RecP = std::shared_ptr<Rec>;

struct Cli
{
    std::unique_ptr<modbus::IModbusManager> mgr;
    std::shared_ptr<modbus::IClientChannel> ch;
    std::map<std::pair<int, int64_t>, std::shared_ptr<modbus::IClientSession>> sess;
    std::mutex sess_mutex;
    std::string host = net::own_host();
    uint16_t port = net::next_port();
    net::Listener l;
    std::atomic<int> inside{0};
    std::atomic<uint64_t> completions{0};

    explicit Cli(unsigned threads = 2, const std::string& adapter = "", bool listen = true, std::string hostname = "")
    {
        if(listen) l.open(host, port);
        mgr = modbus::IModbusManager::create(lib::counting_logger(), threads);
        ch = mgr->create_client_tcp_channel("cli", modbus::Ipv4Endpoint{hostname.empty() ? host : hostname, port}, adapter, modbus::LoggingLevel::Trace);
    }
    ~Cli()
    {
        lib::end_manager(mgr, "client-end-hangs");
        {
            std::lock_guard<std::mutex> g(sess_mutex);
            sess.clear();
        }
        ch.reset();
    }
    // a session of this unit with this default timeout
    std::shared_ptr<modbus::IClientSession> session(uint8_t unit, modbus::duration_t def = LONG)
    {
        std::lock_guard<std::mutex> g(sess_mutex);
        auto& s = sess[{unit, (int64_t)def.count()}];
        if(!s) s = ch->create_session(modbus::UnitIdentifier{unit}, def);
        return s;
    }
    // Checks that handlers of one channel do not overlap.
    struct Inside
    {
        std::atomic<int>& n;
        explicit Inside(std::atomic<int>& x) : n(x)
        {
            if(n.fetch_add(1) != 0) violation("client-callback-overlap", "two callbacks of one client channel ran at the same time");
        }
        ~Inside() { --n; }
    };
    void submit(const RecP& rec, std::function<void(const RecP&)> hook = {})
    {
        auto s = rec->use_default ? session(rec->unit, rec->timeout) : session(rec->unit, std::chrono::hours(1));
        rec->t_submit = Clock::now();
        lib::send(*s, rec->req, rec->use_default ? DEFAULT : rec->timeout, [this, rec, hook](const Rsp& r) {
            auto now = Clock::now();
            Inside i(inside);
            if(rec->calls.fetch_add(1) != 0)
            {
                violation("client-handler-twice", rec->str() + ": the handler was called again, with " + r.str() + " after " + rec->rsp.str());
                return;
            }
            rec->rsp = r;
            rec->t_done = now;
            rec->done = true;
            if(hook) hook(rec);
            ++completions; // after what the handler submits was counted
        });
    }
};

// How late timed things are: one that is always much too late is wrong, one that sometimes is may be the machine's fault.
struct Lateness
{
    std::mutex m;
    double best = 1e9;
    int n = 0;
    void note(Clock::duration elapsed, Clock::duration nominal, const std::string& what)
    {
        if(nominal < std::chrono::milliseconds(15)) return;
        double ratio = (double)elapsed.count() / (double)nominal.count();
        {
            std::lock_guard<std::mutex> g(m);
            ++n;
            best = std::min(best, ratio);
        }
        if(elapsed > nominal + std::chrono::seconds(8)) violation("client-late:" + what, what + " came " + std::to_string(ratio) + " times its time after it was due to start", true);
    }
    void judge(const std::string& what)
    {
        count("timed_" + what, (uint64_t)n);
        if(n >= 8 && best > 1.6) violation("client-late:" + what, "of " + std::to_string(n) + " of kind " + what + " even the earliest took " + std::to_string(best) + " times its nominal time", true);
    }
};
Lateness late_timeout, late_poll, late_timer;

RecP make(int id, uint8_t unit, const Req& q, modbus::duration_t timeout = LONG, bool use_default = false)
{
    auto r = std::make_shared<Rec>();
    r->id = id;
    r->unit = unit;
    r->req = q;
    r->timeout = timeout;
    r->use_default = use_default;
    return r;
}

const char* kind_name(const Rsp& r)
{
    static const char* names[] = {"value", "modbus-exception", "malformed-response", "timeout", "connection-error", "malformed-request", "other"};
    return names[r.kind];
}

bool await(const RecP& r, const std::string& what)
{
    if(eventually([&] { return r->done.load(); })) return true;
    violation("client-never-completed", what + ": " + r->str() + " never completed", true);
    return false;
}
// Waits for the outcome and compares it.
bool check(const RecP& r, const Rsp& want, const std::string& what)
{
    if(!await(r, what)) return false;
    if(r->rsp == want) return true;
    violation(std::string("client-outcome:") + kind_name(want) + ":" + kind_name(r->rsp), what + ": " + r->str() + " gave " + r->rsp.str() + ", expected " + want.str());
    return false;
}
bool check_kind(const RecP& r, Rsp::Kind want, const std::string& what)
{
    Rsp w;
    w.kind = want;
    if(!await(r, what)) return false;
    if(r->rsp.kind == want) return true;
    violation(std::string("client-outcome:") + kind_name(w) + ":" + kind_name(r->rsp), what + ": " + r->str() + " gave " + r->rsp.str() + ", expected " + w.str());
    return false;
}
// Reads the frame of this request; its transaction id is returned.
bool frame(net::Sock& c, const RecP& r, uint16_t& tid, const std::string& what, double seconds = WATCHDOG_S)
{
    Bytes f;
    if(!c.adu(f, seconds))
    {
        if(!c.in.empty()) violation("client-wrong-frame", what + ": " + r->str() + ": only " + hex(c.in) + " arrived", true);
        else violation("client-missing-frame", what + ": the frame of " + r->str() + " never arrived" + (c.ended() ? " (the connection ended)" : "") + (r->done ? ", outcome " + r->rsp.str() : std::string()), true);
        return false;
    }
    tid = f.size() >= 2 ? (uint16_t)ref::get16(f, 0) : 0;
    auto want = ref::adu(tid, r->unit, ref::encode_request(r->req));
    ++r->frames;
    if(f != want)
    {
        violation("client-wrong-frame", what + ": frame " + hex(f) + " for " + r->str() + ", expected " + hex(want));
        return false;
    }
    count("frames");
    return true;
}
bool accept(Cli& k, net::Sock& c, const std::string& what)
{
    c = k.l.accept();
    if(c.ok()) return true;
    violation("client-not-connected", what + ": the client did not connect", true);
    return false;
}
bool quiet(net::Sock& c, const std::string& what)
{
    if(c.quiet()) return true;
    violation("client-extra-bytes", what + ": unexpected bytes " + hex(c.in));
    return false;
}
void write_pieces(Rng& r, net::Sock& c, const Bytes& b)
{
    size_t i = 0, style = r.below(4);
    while(i < b.size())
    {
        size_t n = style == 0 ? b.size() : style == 1 ? 1 + r.below(3) : 1 + r.below(40);
        if(style == 1 && b.size() > 400) n = 1 + r.below(100);
        if(n > b.size() - i) n = b.size() - i;
        if(!c.write(b.data() + i, n)) return;
        i += n;
        if(style && r.chance(1, 6)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(300)));
    }
}
// how often writes are left to the I/O threads, in 256
uint32_t again(Rng& r) { static const uint32_t n[] = {0, 0, 0, 30, 200, 245}; return n[r.below(6)]; }
void set_faults(Rng& r)
{
    net::faults().recv_max = r.chance(1, 2) ? 0 : 1 + (uint32_t)r.below(r.chance(1, 2) ? 5 : 60);
    net::faults().send_max = r.chance(1, 2) ? 0 : 1 + (uint32_t)r.below(r.chance(1, 2) ? 5 : 100);
    net::faults().send_again = again(r);
}
void clear_faults()
{
    auto& f = net::faults();
    f.send_again = 0;
    f.dead_before = f.dead_after = 0;
    f.recv_max = 0;
    f.send_max = 0;
    f.io_delay = 0;
    f.handler_delay = 0;
    f.recv_errors = f.send_errors = f.connect_errors = f.bind_errors = f.resolve_errors = 0;
}
void note_faults()
{
    auto& f = net::faults();
    count("injected_io_delays", f.n_delays);
    count("injected_short_recv", f.n_short_recv);
    count("injected_short_send", f.n_short_send);
    count("writes_put_off_to_io_threads", f.n_send_again);
    count("injected_connect_errors", f.n_connect_fail);
    count("injected_resolve_errors", f.n_resolve_fail);
    count("refusing_addresses", f.n_dead);
    count("injected_bind_errors", f.n_bind_fail);
    count("injected_recv_errors", f.n_recv_fail);
    count("injected_send_errors", f.n_send_fail);
}
uint64_t hash_of(const Req& q, uint8_t unit)
{
    auto b = ref::encode_request(q);
    return fnv(b.data(), b.size(), 1469598103934665603ull ^ unit);
}
// Reads a whole request of random kind, any timeout form.
RecP random_rec(Rng& r, int id, bool valid = true)
{
    auto rec = make(id, r.chance(1, 3) ? (uint8_t)r.pick(std::vector<int>{0, 1, 255, 17}) : r.u8(), ref::random_request(r, valid));
    rec->use_default = r.chance(1, 2);
    return rec;
}

// ---- requests and their values over the wire ----
void sc_wire()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long rounds = ctx().cases(100, 1500);
    for(long round = 0; round < rounds; ++round)
    {
        Cli k(1 + (unsigned)r.below(3));
        set_faults(r);
        net::Sock c;
        int id = 0;
        uint64_t salt = r.next();
        std::string what = "wire";
        // before anything valid is submitted nothing connects
        if(r.chance(1, 3))
        {
            auto bad = random_rec(r, id++, false);
            k.submit(bad);
            if(!check_kind(bad, Rsp::BAD_REQUEST, "invalid request on a fresh channel")) continue;
            std::this_thread::sleep_for(std::chrono::milliseconds(3));
            if(k.l.pending()) { violation("client-extra-connection", "an invalid request made the client connect: " + bad->str()); continue; }
            count("invalid_requests");
        }
        unsigned batches = 1 + (unsigned)r.below(6);
        bool ok = true;
        for(unsigned b = 0; b < batches && ok; ++b)
        {
            std::vector<RecP> all, valid;
            unsigned n = 1 + (unsigned)r.below(12);
            for(unsigned i = 0; i < n; ++i)
            {
                bool v = r.chance(5, 6);
                auto rec = random_rec(r, id++, v);
                all.push_back(rec);
                if(v) valid.push_back(rec);
                k.submit(rec);
            }
            if(!c.ok() && !valid.empty() && !accept(k, c, what)) { ok = false; break; }
            bool first = true;
            for(auto& rec : valid)
            {
                uint16_t tid;
                if(!frame(c, rec, tid, what)) { ok = false; break; }
                if(first)
                {
                    // invalid ones fail at once, without waiting for the request in progress
                    for(auto& x : all) if(!x->req.valid() && !check_kind(x, Rsp::BAD_REQUEST, "invalid request while another is in progress")) ok = false;
                    first = false;
                    if(!ok) break;
                }
                auto pdu = ref::encode_response(rec->req.fc, ref::device_response(rec->unit, rec->req, salt));
                write_pieces(r, c, ref::adu(tid, rec->unit, pdu));
                if(!check(rec, ref::decode_response(rec->req, pdu), what)) { ok = false; break; }
                distinct(hash_of(rec->req, rec->unit));
                count("requests");
                count("fc" + std::to_string(rec->req.fc));
            }
            if(!ok) break;
            for(auto& x : all) if(!x->req.valid()) { if(!check_kind(x, Rsp::BAD_REQUEST, what)) ok = false; count("invalid_requests"); }
            for(auto& x : all) if(x->calls != 1) violation("client-handler-twice", x->str());
            if(c.ok() && !quiet(c, "after a batch")) ok = false;
            if(k.l.pending()) { violation("client-extra-connection", "a second connection was made while the first one works"); ok = false; }
            if(b == 0 && round == 0 && !all.empty()) sample(all[0]->str());
        }
        clear_faults();
    }
    note_faults();
}

// All quantities around and beyond the limits, and all 256 units.
void sc_limits()
{
    Rng r(ctx().seed);
    Cli k(2);
    net::Sock c;
    int id = 0;
    auto one = [&](uint8_t unit, const Req& q) {
        auto rec = make(id++, unit, q, LONG, r.chance(1, 2));
        k.submit(rec);
        count("requests");
        distinct(hash_of(q, unit));
        if(!q.valid()) return check_kind(rec, Rsp::BAD_REQUEST, "limits");
        if(!c.ok() && !accept(k, c, "limits")) return false;
        uint16_t tid;
        if(!frame(c, rec, tid, "limits")) return false;
        auto pdu = ref::encode_response(q.fc, ref::device_response(unit, q, 5));
        c.write(ref::adu(tid, unit, pdu));
        return check(rec, ref::decode_response(q, pdu), "limits");
    };
    for(unsigned u = 0; u < 256; ++u)
    {
        auto q = ref::random_request(r);
        if(!one((uint8_t)u, q)) return;
    }
    for(uint8_t fc : {1, 2, 3, 4})
    {
        std::set<unsigned> qs{0, 1, 2, 7, 8, 9, 15, 16, 17, 122, 123, 124, 125, 126, 127, 128, 129, 255, 256, 257, 512, 1967, 1968, 1969, 1984, 1992, 1993, 1999, 2000, 2001, 2008, 2040, 2048, 32767, 32768, 65408, 65535};
        for(int i = 0; i < (ctx().thorough() ? 1500 : 40); ++i) qs.insert((unsigned)r.below(r.chance(1, 2) ? 2100 : 65536));
        if(ctx().thorough()) for(unsigned v = 0; v <= 2001; ++v) qs.insert(v);
        for(auto v : qs)
        {
            Req q;
            q.fc = fc;
            q.addr = r.edge16();
            q.qty = (uint16_t)v;
            if(!one(3, q)) return;
        }
    }
    for(uint8_t fc : {15, 16})
    {
        std::set<unsigned> qs{0, 1, 2, 7, 8, 9, 15, 16, 17, 122, 123, 124, 125, 126, 127, 128, 129, 246, 247, 255, 256, 257, 379, 1960, 1967, 1968, 1969, 1970, 1976, 2000, 2001, 2040, 2048, 2049, 4016, 65535, 65536, 65537, 65536 + 16, 65536 + 123, 65536 + 1968, 131072, 131073};
        for(int i = 0; i < (ctx().thorough() ? 800 : 30); ++i) qs.insert((unsigned)r.below(r.chance(1, 2) ? 2000 : 70000));
        for(auto v : qs)
        {
            Req q;
            q.fc = fc;
            q.addr = r.edge16();
            for(unsigned i = 0; i < v; ++i) q.values.push_back(fc == 15 ? (uint16_t)r.below(2) : r.u16());
            if(!one(3, q)) return;
        }
    }
    for(int i = 0; i < 200; ++i)
    {
        Req q;
        q.fc = r.chance(1, 2) ? 5 : 6;
        q.addr = r.edge16();
        q.values = {q.fc == 5 ? (uint16_t)r.below(2) : r.edge16()};
        if(!one(r.u8(), q)) return;
    }
    sample("256 units; all eight kinds at and beyond every limit");
    quiet(c, "limits");
}

// ---- validation of responses ----
Bytes mutate_response(Rng& r, const Req& q, uint64_t salt, uint8_t unit)
{
    auto good = ref::encode_response(q.fc, ref::device_response(unit, q, salt));
    Bytes p = good;
    switch(r.below(18))
    {
    case 0: break;
    case 1: p.resize(r.below(p.size())); break;
    case 2:
    {
        size_t n = 1 + r.below(r.chance(1, 2) ? 2 : 30);
        for(size_t i = 0; i < n; ++i) p.push_back(r.chance(1, 2) ? 0 : r.u8());
        break;
    }
    case 3: if(p.size() > 1) p[1] = (uint8_t)(p[1] + (r.chance(1, 2) ? 1 : -1)); break;
    case 4: if(p.size() > 1) p[1] = r.u8(); break;
    case 5: p[0] = r.chance(1, 2) ? ref::ALL_FC[r.below(8)] : r.u8(); break;
    case 6: p = {(uint8_t)(q.fc | 0x80), r.chance(1, 2) ? (uint8_t)lib::KNOWN_CODES[r.below(9)] : r.u8()}; break;
    case 7: p = {(uint8_t)(q.fc | 0x80)}; break;
    case 8:
        p = {(uint8_t)(q.fc | 0x80), (uint8_t)(1 + r.below(11))};
        for(size_t i = 0, n = 1 + r.below(6); i < n; ++i) p.push_back(r.chance(1, 2) ? 0 : r.u8());
        break;
    case 9: p = {(uint8_t)(ref::ALL_FC[r.below(8)] | 0x80), (uint8_t)(1 + r.below(11))}; break;
    case 10: p.clear(); break;
    case 11: p[r.below(p.size())] ^= (uint8_t)(1u << r.below(8)); break;
    case 12: // a consistent response for another quantity
        if(ref::is_read(q.fc))
        {
            Req o = q;
            int d = (int)r.range(-9, 9);
            int nq = (int)q.qty + d;
            if(nq < 1) nq = 1;
            if(nq > (int)ref::max_qty(q.fc)) nq = (int)ref::max_qty(q.fc);
            o.qty = (uint16_t)nq;
            p = ref::encode_response(q.fc, ref::device_response(unit, o, salt));
        }
        break;
    case 13: // one data byte less or more, byte count adapted
        if(ref::is_read(q.fc)) { if(r.chance(1, 2)) { p.pop_back(); p[1]--; } else { p.push_back(r.u8()); p[1]++; } }
        break;
    case 14: // another address or value in the echo
        if(p.size() == 5) { uint16_t v = r.edge16(); size_t at = r.chance(1, 2) ? 1 : 3; p[at] = (uint8_t)(v >> 8); p[at + 1] = (uint8_t)v; }
        break;
    case 15: for(auto& b : p) if(&b != &p[0] && r.chance(1, 3)) b = r.u8(); break;
    case 16: // longer than any PDU
        p.resize(254 + r.below(40));
        for(size_t i = good.size(); i < p.size(); ++i) p[i] = r.u8();
        break;
    default: // unused bits set
        if(ref::is_bits(q.fc)) for(unsigned i = q.qty; i < 8u * p[1]; ++i) p[2 + i / 8] |= (uint8_t)(r.below(2) << (i % 8));
        break;
    }
    return p;
}
Rsp expected_of(const Req& q, Bytes p)
{
    if(p.size() > 253) p.resize(253);
    return ref::decode_response(q, p);
}

void sc_responses()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long conns = ctx().cases(25, 700);
    for(long n = 0; n < conns; ++n)
    {
        Cli k(1 + (unsigned)r.below(3));
        net::faults().recv_max = r.chance(1, 2) ? 0 : 1 + (uint32_t)r.below(12);
        net::Sock c;
        uint64_t salt = r.next();
        for(int i = 0; i < 80; ++i)
        {
            auto rec = random_rec(r, i);
            k.submit(rec);
            if(!c.ok() && !accept(k, c, "responses")) break;
            uint16_t tid;
            if(!frame(c, rec, tid, "responses")) break;
            auto p = mutate_response(r, rec->req, salt, rec->unit);
            auto want = expected_of(rec->req, p);
            c.write(ref::adu(tid, rec->unit, p));
            count("responses");
            count(std::string("expected_") + kind_name(want));
            distinct(fnv(p.data(), p.size(), hash_of(rec->req, 0)));
            if(!check(rec, want, "response PDU " + hex(p))) break;
            if(n == 0 && i < 3) sample(rec->str() + " answered " + hex(p, 40) + " -> " + rec->rsp.str());
        }
        clear_faults();
    }
    // every exception code for every function
    Cli k(2);
    net::Sock c;
    int id = 0;
    for(uint8_t fc : ref::ALL_FC)
        for(unsigned code = 0; code < 256; ++code)
        {
            Req q;
            do q = ref::random_request(r);
            while(q.fc != fc);
            auto rec = make(id++, 9, q);
            k.submit(rec);
            if(!c.ok() && !accept(k, c, "exception codes")) return;
            uint16_t tid;
            if(!frame(c, rec, tid, "exception codes")) return;
            Bytes p = ref::exception_pdu(fc, (uint8_t)code);
            c.write(ref::adu(tid, 9, p));
            count("exception_codes");
            if(!check(rec, ref::decode_response(q, p), "exception code " + std::to_string(code))) return;
        }
    note_faults();
}

// Every quantity of every kind, answered well and then a little wrong.
void sc_sweep()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    Cli k(2);
    net::Sock c;
    struct Item { RecP rec; Bytes pdu; };
    std::vector<Item> batch;
    int id = 0;
    bool ok = true;
    auto flush = [&](size_t at_least) {
        if(!ok || batch.empty() || batch.size() < at_least) return;
        for(auto& i : batch) k.submit(i.rec);
        if(!c.ok() && !accept(k, c, "sweep")) { ok = false; return; }
        for(auto& i : batch)
        {
            uint16_t tid;
            if(!frame(c, i.rec, tid, "sweep")) { ok = false; return; }
            c.write(ref::adu(tid, i.rec->unit, i.pdu));
        }
        for(auto& i : batch)
        {
            if(!check(i.rec, expected_of(i.rec->req, i.pdu), "sweep, response PDU " + hex(i.pdu)) || i.rec->calls != 1) { ok = false; return; }
            distinct(fnv(i.pdu.data(), i.pdu.size(), hash_of(i.rec->req, i.rec->unit)));
            count("responses");
            count("requests");
        }
        batch.clear();
    };
    auto add = [&](const Req& q, const Bytes& pdu) {
        batch.push_back({make(id++, (uint8_t)r.below(256), q, LONG, r.chance(1, 8)), pdu});
        flush(100);
    };
    auto good = [&](const Req& q) { return ref::encode_response(q.fc, ref::device_response(7, q, r.next())); };
    for(uint8_t fc : {1, 2, 3, 4, 15, 16})
        for(unsigned n = 1; n <= ref::max_qty(fc) && ok; ++n)
        {
            Req q;
            q.fc = fc;
            q.addr = r.edge16();
            if(fc < 5) q.qty = (uint16_t)n;
            else for(unsigned i = 0; i < n; ++i) q.values.push_back(fc == 15 ? (uint16_t)r.below(2) : r.u16());
            auto p = good(q);
            add(q, p);
            count("swept_quantities");
            if(n % (ctx().thorough() ? 1 : 4) != r.below(4)) continue;
            // a little wrong: byte count, length, both, or of the next quantity
            switch(r.below(5))
            {
            case 0: if(fc < 5) p[1] += (uint8_t)(r.chance(1, 2) ? 1 : -1); else p.push_back(0); break;
            case 1: p.pop_back(); break;
            case 2: p.push_back(r.chance(1, 2) ? 0 : r.u8()); break;
            case 3: if(fc < 5) { p.push_back(0); ++p[1]; } else p.pop_back(); break;
            default: if(fc < 5) { p.pop_back(); --p[1]; } else p[0] ^= 3; break;
            }
            add(q, p);
            count("swept_wrong");
        }
    // every value in a response; every length of a response
    for(uint32_t v = 0; v < 65536 && ok; v += 125)
    {
        Req q;
        q.fc = (uint8_t)(3 + r.below(2));
        q.addr = r.edge16();
        q.qty = 125;
        Bytes p{q.fc, 250};
        for(uint32_t i = 0; i < 125; ++i) { uint16_t w = (uint16_t)((v + i) * 40503u); p.push_back((uint8_t)(w >> 8)); p.push_back((uint8_t)w); }
        add(q, p);
    }
    for(uint8_t fc : ref::ALL_FC)
        for(unsigned len = 0; len <= 253 && ok; ++len)
        {
            Req q;
            do q = ref::random_request(r);
            while(q.fc != fc);
            auto p = good(q);
            p.resize(len);
            if(len > 1 && fc < 5 && r.chance(1, 2)) p[1] = (uint8_t)(len - 2);
            if(len && r.chance(1, 4)) p[0] |= 0x80;
            add(q, p);
            count("swept_lengths");
        }
    flush(1);
    sample("every valid quantity of six kinds; all 65536 register values in responses; responses of every length for every kind");
}

// ---- framing of what the client receives, and correlation ----
struct Noise
{
    Rng& r;
    // a frame that must be ignored while (tid, unit) is outstanding
    // (ahead: also one whose identifier a later request will have)
    Bytes frame(uint16_t tid, uint8_t unit, const Req& q, bool tail, bool ahead = true)
    {
        auto good = ref::encode_response(q.fc, ref::device_response(unit, q, r.next()));
        uint16_t other = (uint16_t)(tid - 1 - r.below(30000));
        if(!tail && ahead && r.chance(1, 3)) other = (uint16_t)(tid ^ (1u << r.below(16)));
        if(!tail && ahead && r.chance(1, 6)) other = (uint16_t)(tid + 1 + r.below(3));
        switch(r.below(tail ? 6 : 9))
        {
        case 0: return ref::adu(other, unit, good);
        case 1: return ref::adu(other, unit, ref::exception_pdu(q.fc, (uint8_t)(1 + r.below(4))));
        case 2:
        {
            auto a = ref::adu(tid, unit, Bytes{});
            a[4] = a[5] = 0;
            return a;
        }
        case 3: return ref::adu(other, unit, Bytes{});
        case 4:
        {
            Bytes p;
            auto inner = ref::adu(tid, unit, good);
            size_t n = 254 + r.below(r.chance(1, 2) ? 10 : 900);
            for(size_t i = 0; i < n; ++i) p.push_back(inner[i % inner.size()]);
            return ref::adu(other, unit, p);
        }
        case 5: return ref::adu(other, r.u8(), good);
        case 6: return ref::adu(tid, (uint8_t)(unit ^ (1u << r.below(8))), good);
        case 7: return ref::adu(tid, unit, good, (uint16_t)(1u << r.below(16)));
        default: return ref::adu(tid, unit, good, (uint16_t)(1 + r.below(65535)));
        }
    }
};

void sc_segments()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    Noise noise{r};
    long conns = ctx().cases(40, 1200);
    for(long n = 0; n < conns; ++n)
    {
        Cli k(1 + (unsigned)r.below(3));
        net::faults().recv_max = r.chance(1, 3) ? 0 : 1 + (uint32_t)r.below(r.chance(1, 2) ? 8 : 300);
        net::Sock c;
        Bytes pending; // the rest of a noise frame whose start was sent earlier
        for(int i = 0; i < 25; ++i)
        {
            auto rec = random_rec(r, i);
            k.submit(rec);
            if(!c.ok() && !accept(k, c, "segments")) break;
            uint16_t tid;
            if(!frame(c, rec, tid, "segments")) break;
            Bytes s = pending;
            pending.clear();
            unsigned before = (unsigned)r.below(4);
            for(unsigned j = 0; j < before; ++j)
            {
                auto f = noise.frame(tid, rec->unit, rec->req, false);
                s.insert(s.end(), f.begin(), f.end());
                count("noise_frames");
            }
            bool bad = r.chance(1, 4);
            auto p = bad ? mutate_response(r, rec->req, 7, rec->unit) : ref::encode_response(rec->req.fc, ref::device_response(rec->unit, rec->req, 7));
            auto want = expected_of(rec->req, p);
            auto a = ref::adu(tid, rec->unit, p);
            s.insert(s.end(), a.begin(), a.end());
            for(unsigned j = 0, m = (unsigned)r.below(3); j < m; ++j)
            {
                auto f = noise.frame(tid, rec->unit, rec->req, true);
                if(j + 1 == m && r.chance(1, 2))
                {
                    size_t cut = r.below(f.size());
                    pending.assign(f.begin() + (long)cut, f.end());
                    f.resize(cut);
                }
                s.insert(s.end(), f.begin(), f.end());
                count("noise_frames");
            }
            distinct(fnv(s.data(), s.size()));
            write_pieces(r, c, s);
            count("streams");
            if(!check(rec, want, "after the stream " + hex(s, 2000))) break;
            if(n == 0 && i < 2) sample(hex(s, 120));
        }
        clear_faults();
    }
    note_faults();
}

// Late, duplicate and foreign responses around requests that time out.
void sc_correlate()
{
    Rng r(ctx().seed);
    long conns = ctx().cases(40, 500);
    Noise noise{r};
    for(long n = 0; n < conns; ++n)
    {
        Cli k(1 + (unsigned)r.below(3));
        net::Sock c;
        struct Old { uint16_t tid; uint8_t unit; Req req; };
        std::vector<Old> olds;
        std::string trace;
        std::map<uint16_t, int> seen;
        // few shapes of requests, so that a stray response would fit
        std::vector<Req> shapes;
        for(int i = 0; i < 2; ++i) shapes.push_back(ref::random_request(r));
        std::deque<std::pair<RecP, bool>> queue; // submitted; whether it is to be starved
        int submitted = 0;
        for(int i = 0; i < 30; ++i)
        {
            if(queue.empty() || r.chance(1, 4))
                for(unsigned j = 0, m = r.chance(1, 2) ? 1 : 2 + (unsigned)r.below(4); j < m; ++j)
                {
                    bool starve = submitted && r.chance(1, 3); // the first one waits for the connection
                    auto rec = make(submitted++, (uint8_t)(1 + r.below(2)), r.pick(shapes), starve ? modbus::duration_t(std::chrono::milliseconds(2 + r.below(12))) : modbus::duration_t(LONG), r.chance(1, 2));
                    queue.push_back({rec, starve});
                    k.submit(rec);
                }
            auto rec = queue.front().first;
            bool starve = queue.front().second;
            queue.pop_front();
            if(!c.ok() && !accept(k, c, "correlate")) break;
            uint16_t tid;
            if(!frame(c, rec, tid, "correlate " + trace)) break;
            if(seen.count(tid)) { violation("client-tid-reused", "transaction id " + std::to_string(tid) + " used twice within " + std::to_string(i) + " requests"); break; }
            seen[tid] = i;
            trace += starve ? "starve " : "answer ";
            bool ok = true;
            unsigned strays = (unsigned)r.below(5);
            for(unsigned j = 0; j < strays; ++j)
            {
                Bytes f;
                if(!queue.empty() && !starve && r.chance(1, 3)) // (a starved one may be over before this is read)
                {
                    // what would fit a request which is still waiting for its turn
                    size_t at = r.below(queue.size());
                    auto& o = *queue[at].first;
                    f = ref::adu((uint16_t)(tid + 1 + at), o.unit, ref::encode_response(o.req.fc, ref::device_response(o.unit, o.req, 1000 + r.below(1000))));
                    count("strays_for_waiting_requests");
                }
                else if(!olds.empty() && r.chance(2, 3))
                {
                    auto& o = olds[r.below(olds.size())];
                    f = ref::adu(o.tid, o.unit, ref::encode_response(o.req.fc, ref::device_response(o.unit, o.req, 1000 + r.below(1000))));
                }
                else if(r.chance(1, 4)) f = ref::adu((uint16_t)(tid ^ 0xFF00), rec->unit, Bytes{});
                else f = noise.frame(tid, rec->unit, rec->req, false, !starve);
                c.write(f);
                count("stray_frames");
            }
            if(r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(1500)));
            if(starve)
            {
                ok = check_kind(rec, Rsp::TIMEOUT, "starved, only strays were sent; " + trace);
                count("starved");
            }
            else
            {
                auto pdu = ref::encode_response(rec->req.fc, ref::device_response(rec->unit, rec->req, 42));
                c.write(ref::adu(tid, rec->unit, pdu));
                ok = check(rec, ref::decode_response(rec->req, pdu), "among strays; " + trace);
                if(ok && r.chance(1, 3)) { c.write(ref::adu(tid, rec->unit, pdu)); count("duplicates"); }
                count("answered");
            }
            if(!ok) break;
            olds.push_back({tid, rec->unit, rec->req});
            distinct(fnv(trace) ^ hash_of(rec->req, rec->unit) ^ (uint64_t)n);
        }
        if(n == 0) sample(trace);
    }
}

// Transaction identifiers over more than one cycle, across sessions and reconnections.
void sc_tids()
{
    Rng r(ctx().seed);
    Cli k(1);
    net::Sock c;
    std::vector<int64_t> last(65536, -1);
    const int64_t total = ctx().cases(ctx().thorough() ? 140000 : 67000, 140000);
    int64_t n = 0, next_reset = 500;
    while(n < total)
    {
        int batch = 1 + (int)r.below(200);
        const int units = (int)r.below(256);
        std::vector<RecP> recs;
        for(int i = 0; i < batch; ++i)
        {
            Req q;
            q.fc = 6;
            q.addr = (uint16_t)(n + i);
            q.values = {(uint16_t)((n + i) * 40503)}; // all values
            recs.push_back(make((int)(n + i), (uint8_t)(units + i % 3), q));
            if(r.chance(1, 50)) { auto bad = random_rec(r, -1, false); k.submit(bad); }
            k.submit(recs.back());
        }
        if(!c.ok() && !accept(k, c, "tids")) return;
        for(auto& rec : recs)
        {
            uint16_t tid;
            if(!frame(c, rec, tid, "tids")) return;
            if(last[tid] >= 0 && n - last[tid] < 65536)
            {
                violation("client-tid-reused", "transaction id " + std::to_string(tid) + " was used by requests " + std::to_string(last[tid]) + " and " + std::to_string(n) + " of the channel");
                return;
            }
            last[tid] = n++;
            auto pdu = ref::encode_response(6, ref::device_response(rec->unit, rec->req, 0));
            c.write(ref::adu(tid, rec->unit, pdu));
        }
        for(auto& rec : recs) if(!check(rec, ref::device_response(rec->unit, rec->req, 0), "tids")) return;
        count("requests", (uint64_t)batch);
        if(n > next_reset)
        {
            next_reset += 4000 + (int64_t)r.below(8000);
            c.half_close(); // reconnect
            if(!c.wait_end()) { violation("client-close-not-followed", "the client did not close after its peer did", true); return; }
            c.close();
            count("reconnections");
        }
    }
    for(auto v : last) if(v >= 0) distinct((uint64_t)v);
    sample(std::to_string(n) + " requests of one channel, over three sessions and several connections");
}

// ---- order, one outstanding, exactly once ----
void sc_order()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long rounds = ctx().cases(40, 300);
    for(long round = 0; round < rounds; ++round)
    {
        Cli k(1 + (unsigned)r.below(4));
        set_faults(r);
        const int T = 1 + (int)r.below(4), M = 10 + (int)r.below(30);
        std::mutex m;
        std::map<int, RecP> recs;
        std::atomic<int> next_id{1}, submitted{0};
        std::vector<std::atomic<int>> seqs((size_t)T + 1);
        for(auto& s : seqs) s = 0;
        std::atomic<uint64_t> hr{r.next()};
        std::vector<std::pair<int, int>> completed; // (thread, seq) in order of completion
        std::function<void(const RecP&)> hook;
        auto fresh = [&](Rng& g, int thread) {
            auto rec = random_rec(g, 0);
            rec->id = next_id++;
            rec->req.addr = (uint16_t)rec->id; // the address identifies the request
            rec->thread = thread;
            rec->seq = seqs[(size_t)thread]++;
            if(g.chance(1, 8)) rec->timeout = std::chrono::milliseconds(2 + g.below(10)); // not answered
            std::lock_guard<std::mutex> l(m);
            recs[rec->id] = rec;
            return rec;
        };
        hook = [&](const RecP& rec) {
            {
                std::lock_guard<std::mutex> l(m);
                completed.push_back({rec->thread, rec->seq});
            }
            uint64_t x = hr.fetch_add(0x9E3779B97F4A7C15ull);
            Rng g(x ^ (uint64_t)rec->id * 77);
            if(g.chance(1, 6)) // submit from the handler
            {
                auto n = fresh(g, T);
                ++submitted;
                k.submit(n, hook);
            }
        };
        std::vector<std::thread> ts;
        std::atomic<int> running{T};
        for(int t = 0; t < T; ++t)
        {
            uint64_t seed = r.next();
            ts.emplace_back([&, t, seed] {
                Rng g(seed);
                for(int i = 0; i < M; ++i)
                {
                    auto rec = fresh(g, t);
                    ++submitted;
                    k.submit(rec, hook);
                    if(g.chance(1, 5)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(400)));
                }
                --running;
            });
        }
        net::Sock c;
        bool ok = accept(k, c, "order");
        RecP current;
        std::vector<int> sent_seq((size_t)T + 1, -1);
        std::string order;
        auto progress = Clock::now();
        while(ok)
        {
            if(!running && (int)k.completions == submitted)
            {
                // nothing may follow
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
                if((int)k.completions == submitted) break;
            }
            Bytes f;
            if(!c.adu(f, 0.02))
            {
                if(c.ended()) { violation("client-connection-dropped", "the client closed a working connection"); ok = false; break; }
                if(Clock::now() - progress > std::chrono::seconds((int)WATCHDOG_S))
                {
                    violation("client-stalled", std::to_string(submitted - (int)k.completions) + " requests are waiting and nothing is sent; in progress: " + (current ? current->str() : "none"), true);
                    ok = false;
                }
                continue;
            }
            progress = Clock::now();
            RecP rec;
            {
                std::lock_guard<std::mutex> l(m);
                auto it = recs.find(f.size() >= 10 ? (int)ref::get16(f, 8) : -1);
                if(it != recs.end()) rec = it->second;
            }
            if(!rec) { violation("client-wrong-frame", "order: " + hex(f) + " belongs to no request"); ok = false; break; }
            uint16_t tid = (uint16_t)ref::get16(f, 0);
            if(f != ref::adu(tid, rec->unit, ref::encode_request(rec->req))) { violation("client-wrong-frame", "order: " + hex(f) + " for " + rec->str()); ok = false; break; }
            count("frames");
            if(++rec->frames != 1) { violation("client-frame-twice", rec->str() + " was sent twice"); ok = false; break; }
            if(current && !current->done)
            {
                // complete on the wire; its handler may be just about to run
                bool answered = current->want_known;
                if(!answered) std::this_thread::sleep_for(std::chrono::milliseconds(1));
                if(answered ? !eventually([&] { return current->done.load(); }) : !current->done)
                {
                    violation("client-second-outstanding", rec->str() + " was sent while " + current->str() + " was not complete", true);
                    ok = false;
                    break;
                }
            }
            // those skipped timed out before the connection was made
            bool skipped_ok = rec->seq > sent_seq[(size_t)rec->thread];
            if(skipped_ok && sent_seq[(size_t)rec->thread] + 1 != rec->seq)
            {
                std::lock_guard<std::mutex> l(m);
                for(auto& kv : recs)
                {
                    auto& o = *kv.second;
                    if(o.thread == rec->thread && o.seq > sent_seq[(size_t)rec->thread] && o.seq < rec->seq)
                    {
                        if(o.timeout >= LONG || !o.done || o.rsp.kind != Rsp::TIMEOUT) skipped_ok = false;
                        else count("timed_out_unsent");
                    }
                }
            }
            if(!skipped_ok)
            {
                violation("client-order", "thread " + std::to_string(rec->thread) + (rec->thread == T ? " (handlers)" : "") + ": request number " + std::to_string(rec->seq) + " went out after number " + std::to_string(sent_seq[(size_t)rec->thread]));
                ok = false;
                break;
            }
            sent_seq[(size_t)rec->thread] = rec->seq;
            order += std::to_string(rec->thread) + ",";
            current = rec;
            if(rec->timeout < LONG) { count("starved"); continue; } // no answer
            if(r.chance(1, 4))
            {
                if(c.fill(0.0005 * (double)r.below(5)) || !c.in.empty())
                {
                    if(!rec->done) { violation("client-second-outstanding", "bytes " + hex(c.in) + " arrived while " + rec->str() + " was in progress"); ok = false; break; }
                }
            }
            unsigned how = (unsigned)r.below(12);
            Bytes p = ref::encode_response(rec->req.fc, ref::device_response(rec->unit, rec->req, 3));
            if(how == 0) p = ref::exception_pdu(rec->req.fc, (uint8_t)(1 + r.below(4)));
            if(how == 1) p.push_back(0);
            rec->want = ref::decode_response(rec->req, p);
            rec->want_known = true;
            if(how == 2) c.write(ref::adu((uint16_t)(tid - 1), rec->unit, p));
            write_pieces(r, c, ref::adu(tid, rec->unit, p));
            if(how == 3) c.write(ref::adu(tid, rec->unit, p)); // twice
        }
        for(auto& t : ts) t.join();
        if(ok)
        {
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
            if(!quiet(c, "order: after the last completion")) ok = false;
        }
        if(ok)
        {
            std::lock_guard<std::mutex> l(m);
            for(auto& kv : recs)
            {
                auto& x = *kv.second;
                if(x.calls != 1) { violation("client-handler-twice", x.str() + ": " + std::to_string(x.calls) + " calls"); break; }
                if(x.frames != 1 && !(x.frames == 0 && x.timeout < LONG && x.rsp.kind == Rsp::TIMEOUT)) { violation("client-frame-twice", x.str() + ": " + std::to_string(x.frames) + " frames"); break; }
                Rsp w = x.want;
                if(!x.want_known) w.kind = Rsp::TIMEOUT;
                if(x.rsp != w) { violation(std::string("client-outcome:") + kind_name(w) + ":" + kind_name(x.rsp), "order: " + x.str() + " gave " + x.rsp.str() + ", expected " + w.str()); break; }
            }
            std::vector<int> done_seq((size_t)T + 1, -1);
            for(auto& e : completed)
            {
                if(done_seq[(size_t)e.first] + 1 != e.second) { violation("client-order", "thread " + std::to_string(e.first) + ": request number " + std::to_string(e.second) + " completed after number " + std::to_string(done_seq[(size_t)e.first])); break; }
                done_seq[(size_t)e.first] = e.second;
            }
        }
        count("requests", (uint64_t)submitted.load());
        count("histories");
        distinct(fnv(order));
        if(round == 0) sample("order of senders on the wire: " + order);
        clear_faults();
        lib::end_manager(k.mgr, "client-end-hangs"); // before what the handlers refer to goes away
    }
    note_faults();
}

// ---- everything fails at random: exactly once, nothing lost, and the channel recovers ----
void sc_chaos()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long rounds = ctx().cases(80, 250);
    for(long round = 0; round < rounds; ++round)
    {
        Cli k(1 + (unsigned)r.below(4));
        net::faults().recv_max = r.chance(1, 2) ? 0 : 1 + (uint32_t)r.below(30);
        net::faults().send_max = r.chance(1, 2) ? 0 : 1 + (uint32_t)r.below(30);
        net::faults().send_again = again(r);
        net::faults().io_delay = r.chance(1, 2) ? 0 : 400;
        net::faults().handler_delay = r.chance(1, 2) ? 0 : 400;
        const int T = 1 + (int)r.below(3), M = 15 + (int)r.below(25);
        std::mutex m;
        std::map<int, RecP> recs;
        std::atomic<int> next_id{1}, submitted{0}, from_handler{0};
        std::function<void(const RecP&)> hook;
        auto fresh = [&](Rng& g) {
            auto rec = random_rec(g, 0);
            rec->id = next_id++;
            rec->req.addr = (uint16_t)rec->id;
            if(g.chance(1, 2)) rec->timeout = std::chrono::milliseconds(1 + g.below(25));
            std::lock_guard<std::mutex> l(m);
            recs[rec->id] = rec;
            return rec;
        };
        hook = [&](const RecP& rec) {
            Rng g((uint64_t)rec->id * 7919 + ctx().seed);
            if(g.chance(1, 5) && from_handler < 60)
            {
                ++from_handler;
                auto n = fresh(g);
                ++submitted;
                k.submit(n, hook);
            }
        };
        std::atomic<int> running{T};
        std::vector<std::thread> ts;
        for(int t = 0; t < T; ++t)
        {
            uint64_t seed = r.next();
            ts.emplace_back([&, seed] {
                Rng g(seed);
                for(int i = 0; i < M; ++i)
                {
                    auto rec = fresh(g);
                    ++submitted;
                    k.submit(rec, hook);
                    if(g.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(1500)));
                }
                --running;
            });
        }
        net::Sock c;
        bool ok = true, listening = true;
        std::string trace;
        auto progress = Clock::now();
        uint64_t last = 0;
        unsigned idle = 0;
        while(ok)
        {
            if(k.completions != last) { last = k.completions; progress = Clock::now(); }
            if(!running && (int)k.completions == submitted)
            {
                std::this_thread::sleep_for(std::chrono::milliseconds(1));
                if((int)k.completions == submitted) break;
            }
            if(Clock::now() - progress > std::chrono::seconds((int)WATCHDOG_S))
            {
                violation("client-never-completed", std::to_string(submitted - (int)k.completions) + " requests never completed; " + trace.substr(trace.size() > 300 ? trace.size() - 300 : 0), true);
                ok = false;
                break;
            }
            if(!listening && r.chance(1, 20)) { k.l.open(k.host, k.port); listening = true; trace += "L"; }
            if(listening && k.l.pending())
            {
                auto n = k.l.accept(0.1);
                if(n.ok()) { c = std::move(n); trace += "A"; count("connections"); idle = 0; }
            }
            if(!c.ok() || c.ended()) { std::this_thread::sleep_for(std::chrono::microseconds(200)); continue; }
            if(r.chance(1, 60)) { c.half_close(); trace += "h"; }
            if(r.chance(1, 60)) { net::faults().recv_errors = 1; net::faults().recv_errno = r.chance(1, 2) ? ECONNRESET : ETIMEDOUT; trace += "r"; }
            if(r.chance(1, 60)) { net::faults().send_errors = 1; trace += "s"; }
            if(r.chance(1, 40)) { net::faults().connect_errors = 1; trace += "c"; }
            if(r.chance(1, 40)) { net::faults().resolve_errors = 1; trace += "v"; }
            Bytes f;
            if(!c.adu(f, 0.002))
            {
                if(++idle > 15) { c.close(); idle = 0; trace += "i"; } // someone waits for an answer that will not come
                continue;
            }
            idle = 0;
            count("frames");
            RecP rec;
            {
                std::lock_guard<std::mutex> l(m);
                auto it = recs.find(f.size() >= 10 ? (int)ref::get16(f, 8) : -1);
                if(it != recs.end()) rec = it->second;
            }
            uint16_t tid = (uint16_t)ref::get16(f, 0);
            if(!rec || f != ref::adu(tid, rec->unit, ref::encode_request(rec->req))) { violation("client-wrong-frame", "chaos: " + hex(f) + (rec ? " for " + rec->str() : " belongs to no request") + "; " + trace); ok = false; break; }
            if(++rec->frames != 1) { violation("client-frame-twice", rec->str() + " was sent twice; " + trace); ok = false; break; }
            auto p = ref::encode_response(rec->req.fc, ref::device_response(rec->unit, rec->req, 3));
            auto a = ref::adu(tid, rec->unit, p);
            unsigned how = (unsigned)r.below(16);
            trace += std::to_string(how) + ".";
            switch(how)
            {
            case 0: c.close(); break;
            case 1: c.reset_close(); break;
            case 2: c.half_close(); break;
            case 3: a.resize(r.below(a.size())); c.write(a); c.close(); break;
            case 4: a.resize(r.below(a.size())); c.write(a); c.reset_close(); break;
            case 5: c.write(a); c.close(); break;
            case 6: c.write(a); c.write(a); break;
            case 7: break; // no answer
            case 8: c.close(); k.l.close(); listening = false; break;
            case 9: { Bytes junk(1 + r.below(300)); for(auto& b : junk) b = r.u8(); c.write(junk); c.close(); break; }
            default: write_pieces(r, c, a); break;
            }
        }
        for(auto& t : ts) t.join();
        clear_faults();
        if(ok)
        {
            // the channel is as good as new
            if(!listening) k.l.open(k.host, k.port);
            bool served = false;
            for(int attempt = 0; attempt < 3 && !served && ok; ++attempt)
            {
                auto rec = make(60000 + attempt, 5, ref::random_request(r));
                k.submit(rec);
                auto end = Clock::now() + std::chrono::seconds((int)WATCHDOG_S);
                while(!rec->done && Clock::now() < end)
                {
                    if(k.l.pending()) { auto n = k.l.accept(0.1); if(n.ok()) c = std::move(n); }
                    Bytes f;
                    if(c.ok() && !c.ended() && c.adu(f, 0.002))
                    {
                        if(f.size() < 10 || ref::get16(f, 8) != rec->req.addr || f[6] != 5) continue; // a request that had been given up
                        c.write(ref::adu((uint16_t)ref::get16(f, 0), rec->unit, ref::encode_response(rec->req.fc, ref::device_response(5, rec->req, 3))));
                    }
                    else if(!c.ok() || c.ended()) std::this_thread::sleep_for(std::chrono::microseconds(300));
                }
                if(!await(rec, "after the chaos " + trace.substr(trace.size() > 200 ? trace.size() - 200 : 0))) { ok = false; break; }
                served = rec->rsp == ref::device_response(5, rec->req, 3);
                // the connection that was in use may have failed just then
                if(!served && rec->rsp.kind != Rsp::CONNECTION) { violation("client-outcome:value:" + std::string(kind_name(rec->rsp)), "after the chaos: " + rec->str() + " gave " + rec->rsp.str()); ok = false; }
            }
            if(ok && !served) violation("client-not-recovered", "the channel does not work again after " + trace);
            count("recoveries");
        }
        {
            std::lock_guard<std::mutex> l(m);
            for(auto& kv : recs)
            {
                auto& x = *kv.second;
                if(!ok) break;
                if(x.calls != 1) { violation("client-handler-twice", x.str() + ": " + std::to_string(x.calls) + " calls"); break; }
                bool fine = x.rsp.kind == Rsp::CONNECTION || (x.rsp.kind == Rsp::TIMEOUT && x.timeout < LONG) || (x.rsp.kind == Rsp::VALUE && x.frames && x.rsp == ref::device_response(x.unit, x.req, 3));
                if(x.rsp.kind == Rsp::TIMEOUT && x.t_done - x.t_submit < x.timeout) fine = false;
                if(!fine) { violation(std::string("client-outcome:chaos:") + kind_name(x.rsp), "chaos: " + x.str() + " gave " + x.rsp.str() + " (frames " + std::to_string(x.frames) + "); " + trace); break; }
                count(std::string("outcome_") + kind_name(x.rsp));
            }
        }
        count("requests", (uint64_t)submitted.load());
        count("histories");
        distinct(fnv(trace));
        if(round == 0) sample(trace.substr(0, 300));
        lib::end_manager(k.mgr, "client-end-hangs");
    }
    note_faults();
}

// ---- failures of the connection, one at a time ----
void sc_disconnect()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long rounds = ctx().cases(200, 1500);
    for(long round = 0; round < rounds; ++round)
    {
        std::string adapter = r.chance(1, 3) ? "127.0.0." + std::to_string(2 + r.below(200)) : "";
        Cli k(1 + (unsigned)r.below(3), adapter);
        net::faults().recv_max = r.chance(1, 2) ? 0 : 1 + (uint32_t)r.below(30);
        net::faults().send_max = r.chance(1, 2) ? 0 : 1 + (uint32_t)r.below(100);
        net::faults().send_again = again(r);
        net::faults().io_delay = r.chance(1, 2) ? 0 : 400;
        net::faults().handler_delay = r.chance(1, 2) ? 0 : 400;
        net::Sock c;
        sockaddr_in from{};
        int id = 0;
        std::string trace = adapter.empty() ? "" : "(from " + adapter + ") ";
        bool ok = true;
        auto fail = [&](const RecP& x, Rsp::Kind kd, const std::string& w) { if(!check_kind(x, kd, w)) ok = false; };
        auto answer = [&](const RecP& rec) {
            uint16_t tid;
            if(!frame(c, rec, tid, trace)) { ok = false; return; }
            c.write(ref::adu(tid, rec->unit, ref::encode_response(rec->req.fc, ref::device_response(rec->unit, rec->req, 9))));
            if(!check(rec, ref::device_response(rec->unit, rec->req, 9), trace)) ok = false;
            count("requests");
        };
        unsigned steps = 3 + (unsigned)r.below(8);
        for(unsigned s = 0; s < steps && ok; ++s)
        {
            // sometimes the handler of a failed request submits the next one
            std::atomic<bool> resubmitted{false};
            RecP again;
            bool connected = c.ok();
            std::vector<RecP> recs;
            unsigned n = 1 + (unsigned)r.below(8);
            for(unsigned i = 0; i < n; ++i) recs.push_back(random_rec(r, id++));
            std::function<void(const RecP&)> hook;
            size_t resub_at = r.chance(1, 3) ? r.below(n) : 1000;
            if(resub_at < n) again = random_rec(r, id++);
            auto submit_all = [&] {
                for(unsigned i = 0; i < n; ++i)
                    if(i == resub_at) k.submit(recs[i], [&](const RecP& x) { if(x->rsp.kind == Rsp::CONNECTION) { resubmitted = true; k.submit(again); } });
                    else k.submit(recs[i]);
            };
            unsigned how = (unsigned)r.below(15); // 13, 14: a write fails
            count("failure_" + std::to_string(how));
            trace += std::to_string(how) + (connected ? "+" : "-") + std::to_string(n) + " ";
            if(!connected && how >= 13) how = 12;
            // the hostname stands for some addresses, all but one of which refuse
            const bool many = (connected || how < 7 || n > 1) && r.chance(1, 2);
            net::faults().dead_before = many ? (int)r.below(4) : 0;
            net::faults().dead_after = many ? (int)r.below(3) : 0;
            auto fail_write = [&] { net::faults().send_errno = r.chance(1, 2) ? EPIPE : ECONNRESET; net::faults().send_errors = 1; };
            if(!connected && how >= 7)
            {
                // failures before a connection exists
                // Requests submitted after the failure make another attempt, which must fail too;
                // with one request only, its handler's request finds a working network.
                int times = n == 1 ? 1 : 1000;
                if(n > 1 || how == 10) { resub_at = 1000; again.reset(); }
                switch(how)
                {
                case 7: net::faults().resolve_errors = times; break;
                case 8: net::faults().connect_errors = times; break;
                case 9:
                    if(adapter.empty()) { net::faults().resolve_errors = times; }
                    else net::faults().bind_errors = times;
                    break;
                case 10: k.l.close(); break;
                case 11: net::faults().connect_errno = EHOSTUNREACH; net::faults().connect_errors = times; break;
                default: net::faults().connect_errno = ECONNREFUSED; net::faults().connect_errors = times; break;
                }
                submit_all();
                for(auto& x : recs) fail(x, Rsp::CONNECTION, trace + "(connection cannot be made)");
                net::faults().resolve_errors = net::faults().connect_errors = net::faults().bind_errors = 0;
                if(how == 10) k.l.open(k.host, k.port);
                net::faults().connect_errno = ENETUNREACH;
            }
            else
            {
                if(connected && how == 12)
                {
                    // the connection is closed while idle; the next request makes a new one
                    if(r.chance(1, 2)) { Bytes junk(1 + r.below(40)); for(auto& b : junk) b = r.u8(); junk.resize(r.below(7)); c.write(junk); }
                    c.half_close();
                    if(!c.wait_end()) { violation("client-close-not-followed", trace + "the client did not close an idle connection its peer closed", true); ok = false; break; }
                    c.close();
                    connected = false;
                }
                bool fail_first = how >= 13 && n == 1; // what is submitted after a failure starts anew
                if(fail_first) fail_write();
                submit_all();
                if(!connected)
                {
                    c = k.l.accept(WATCHDOG_S, &from);
                    if(!c.ok()) { violation("client-not-connected", trace + "the client did not connect", true); ok = false; break; }
                    count("connections");
                    char b[32];
                    inet_ntop(AF_INET, &from.sin_addr, b, sizeof b);
                    if(!adapter.empty() && adapter != b) { violation("client-adapter", trace + "connected from " + b + " instead of " + adapter); ok = false; break; }
                }
                if(k.l.pending()) { violation("client-extra-connection", trace + "more than one connection"); ok = false; break; }
                unsigned good = (unsigned)r.below(n + 1);
                if(how >= 6 && how != 12 && good == n) good = n - 1;
                if(how >= 13)
                {
                    if(fail_first) good = 0;
                    else good = std::max(1u, std::min(good, n - 1)); // n > 1
                }
                if(good == n && how < 6) good = r.chance(1, 2) ? n : n - 1;
                for(unsigned i = 0; i < good && ok; ++i)
                {
                    if(how >= 13 && i + 1 == good)
                    {
                        // the response to this one makes the client write the next
                        uint16_t tid;
                        if(!frame(c, recs[i], tid, trace)) { ok = false; break; }
                        fail_write();
                        c.write(ref::adu(tid, recs[i]->unit, ref::encode_response(recs[i]->req.fc, ref::device_response(recs[i]->unit, recs[i]->req, 9))));
                        if(!check(recs[i], ref::device_response(recs[i]->unit, recs[i]->req, 9), trace)) ok = false;
                    }
                    else answer(recs[i]);
                }
                if(!ok) break;
                if(how >= 13)
                {
                    if(!c.wait_end()) { violation("client-close-not-followed", trace + "after a write error", true); ok = false; break; }
                    c.close();
                    for(unsigned i = good; i < n; ++i) fail(recs[i], Rsp::CONNECTION, trace + "(the write of request " + std::to_string(good) + " of " + std::to_string(n) + " failed)");
                }
                else
                if(good < n)
                {
                    uint16_t tid;
                    if(how < 11 && !frame(c, recs[good], tid, trace)) { ok = false; break; }
                    if(how >= 11 && !frame(c, recs[good], tid, trace)) { ok = false; break; }
                    auto a = ref::adu(tid, recs[good]->unit, ref::encode_response(recs[good]->req.fc, ref::device_response(recs[good]->unit, recs[good]->req, 9)));
                    switch(how % 7)
                    {
                    case 0: c.close(); break;
                    case 1: c.reset_close(); break;
                    case 2: c.half_close(); if(!c.wait_end()) { violation("client-close-not-followed", trace, true); ok = false; } c.close(); break;
                    case 3: a.resize(1 + r.below(a.size() - 1)); c.write(a); c.close(); break;
                    case 4: a.resize(7 + r.below(a.size() - 7)); write_pieces(r, c, a); c.half_close(); if(!c.wait_end()) { violation("client-close-not-followed", trace, true); ok = false; } c.close(); break;
                    case 5: a.resize(1 + r.below(a.size() - 1)); c.write(a); c.reset_close(); break;
                    default: // the read itself fails
                        net::faults().recv_errno = r.chance(1, 2) ? ECONNRESET : r.chance(1, 2) ? ETIMEDOUT : EHOSTUNREACH;
                        net::faults().recv_errors = 1;
                        c.write(Bytes{a[0]});
                        if(!c.wait_end()) { violation("client-close-not-followed", trace + "after a read error", true); ok = false; }
                        c.close();
                        break;
                    }
                    for(unsigned i = good; i < n; ++i) fail(recs[i], Rsp::CONNECTION, trace + "(request " + std::to_string(i) + " of " + std::to_string(n) + ", " + std::to_string(good) + " answered)");
                    net::faults().recv_errors = 0;
                }
                else if(c.ok() && r.chance(1, 2))
                {
                    // idle for a moment, then used again: the same connection
                    auto rec = random_rec(r, id++);
                    k.submit(rec);
                    answer(rec);
                    if(ok && k.l.pending()) { violation("client-extra-connection", trace + "an idle connection was not reused"); ok = false; }
                }
            }
            if(!ok) break;
            if(again)
            {
                bool expect_again = recs[resub_at]->rsp.kind == Rsp::CONNECTION;
                if(expect_again && !resubmitted) { ok = eventually([&] { return resubmitted.load(); }); }
                if(expect_again)
                {
                    c = k.l.accept();
                    if(!c.ok()) { violation("client-not-connected", trace + "a request submitted by the handler of a failed one did not connect", true); ok = false; break; }
                    answer(again);
                    count("resubmissions");
                }
            }
            for(auto& x : recs) if(x->calls != 1) { violation("client-handler-twice", trace + x->str()); ok = false; }
        }
        // and it still works
        if(ok)
        {
            auto rec = random_rec(r, id++);
            k.submit(rec);
            if(!c.ok() && !accept(k, c, trace + "at the end")) ok = false;
            if(ok) answer(rec);
        }
        distinct(fnv(trace));
        count("histories");
        if(round == 0) sample(trace);
        clear_faults();
        net::faults().connect_errno = ENETUNREACH;
    }
    // an adapter that is no address: every request fails, none is forgotten
    for(int i = 0; i < 6; ++i)
    {
        Cli k(2, i % 2 ? "no address" : "203.0.113.7");
        std::vector<RecP> recs;
        for(int j = 0; j < 5; ++j) { recs.push_back(random_rec(r, j)); k.submit(recs.back()); if(j == 2) await(recs[0], "bad adapter"); }
        for(auto& x : recs) check_kind(x, Rsp::CONNECTION, "bad adapter");
        if(k.l.pending()) violation("client-adapter", "a connection was made from another address than the adapter's");
        count("histories");
    }
    // nothing connects before it has to
    {
        Cli k(2);
        auto s = k.session(1);
        std::this_thread::sleep_for(std::chrono::milliseconds(20));
        if(k.l.pending()) violation("client-extra-connection", "a connection was made before the first request");
    }
    note_faults();
}

// ---- timeouts ----
void timeout_case(Rng& r, std::string& trace)
{
    Cli k(1 + (unsigned)r.below(3));
    net::Sock c;
    struct Item { RecP rec; int mode; int delay_us; }; // 0 starve, 1 answer at once, 2 answer after a delay, 3 answer around the timeout, 4 the handler blocks beyond its own timeout
    std::vector<Item> items;
    int n = 2 + (int)r.below(7);
    for(int i = 0; i < n; ++i)
    {
        auto rec = random_rec(r, i);
        rec->req.addr = (uint16_t)i;
        Item it{rec, (int)r.below(5), 0};
        rec->timeout = it.mode == 1 ? modbus::duration_t(LONG) : modbus::duration_t(std::chrono::microseconds(500 + r.below(60000)));
        if(it.mode == 2) { it.delay_us = (int)r.below(30000); rec->timeout = std::chrono::minutes(5); }
        if(it.mode == 3) it.delay_us = (int)(duration_cast<std::chrono::microseconds>(rec->timeout).count() + r.range(-700, 700));
        if(it.mode == 4) rec->timeout = std::chrono::milliseconds(60 + r.below(40));
        items.push_back(it);
        trace += std::to_string(it.mode) + ":" + std::to_string(duration_cast<std::chrono::microseconds>(rec->timeout).count() / 1000) + " ";
    }
    for(auto& it : items)
    {
        auto t = it.rec->timeout;
        if(it.mode == 4)
            k.submit(it.rec, [t](const RecP& x) { if(x->rsp.kind == Rsp::VALUE) std::this_thread::sleep_for(t + std::chrono::milliseconds(5)); });
        else k.submit(it.rec);
    }
    if(!accept(k, c, "timeouts")) return;
    Clock::time_point prev{};
    auto t_last = Clock::now();
    for(auto& it : items)
    {
        auto& x = it.rec;
        uint16_t tid = 0;
        // A request that times out before the connection is made need not be sent.
        bool sent = true;
        while(c.in.size() < 7)
        {
            if(!items.empty() && x->done && x->rsp.kind == Rsp::TIMEOUT && !c.fill(0.003)) { sent = false; break; }
            if(!c.fill(0.01) && c.ended()) break;
            if(Clock::now() - t_last > std::chrono::seconds((int)WATCHDOG_S)) break;
        }
        if(sent && c.in.size() >= 10 && x->done && x->rsp.kind == Rsp::TIMEOUT && ref::get16(c.in, 8) != x->req.addr) sent = false;
        t_last = Clock::now();
        if(!sent) count("timed_out_unsent");
        else if(!frame(c, x, tid, "timeouts " + trace)) return;
        auto a = ref::adu(tid, x->unit, ref::encode_response(x->req.fc, ref::device_response(x->unit, x->req, 8)));
        Rsp want = ref::device_response(x->unit, x->req, 8);
        if(!sent) {}
        else if(it.mode == 0) { if(!check_kind(x, Rsp::TIMEOUT, "not answered; " + trace)) return; count("timeouts_seen"); }
        else if(it.mode == 1) { c.write(a); if(!check(x, want, "answered at once; " + trace)) return; }
        else if(it.mode == 2)
        {
            std::this_thread::sleep_for(std::chrono::microseconds(it.delay_us));
            c.write(a);
            if(!check(x, want, "answered in time; " + trace)) return;
        }
        else if(it.mode == 3)
        {
            if(it.delay_us > 0) std::this_thread::sleep_for(std::chrono::microseconds(it.delay_us));
            c.write(a);
            if(!await(x, "answered around its timeout; " + trace)) return;
            if(x->rsp.kind != Rsp::TIMEOUT && x->rsp != want) { violation("client-outcome:race:" + std::string(kind_name(x->rsp)), "answered around its timeout: " + x->str() + " gave " + x->rsp.str()); return; }
            count(x->rsp.kind == Rsp::TIMEOUT ? "race_timeout" : "race_value");
        }
        else
        {
            c.write(a);
            if(!await(x, trace)) return;
            // on a loaded machine 60 ms may pass before the answer is read
            if(x->rsp.kind != Rsp::TIMEOUT && x->rsp != want) { violation("client-outcome:value:" + std::string(kind_name(x->rsp)), trace); return; }
            count("blocking_handlers");
        }
        if(x->rsp.kind == Rsp::TIMEOUT)
        {
            // it was sent after it was submitted, and after the request before it completed
            auto since = std::max(x->t_submit, prev);
            if(x->t_done - since < x->timeout)
            {
                violation("client-timeout-early", x->str() + " with a timeout of " + std::to_string(duration_cast<std::chrono::microseconds>(x->timeout).count()) + " us timed out " +
                                                      std::to_string(duration_cast<std::chrono::microseconds>(x->t_done - since).count()) + " us after it could first be sent; " + trace);
                return;
            }
        }
        if(sent && it.mode == 0) late_timeout.note(x->t_done - std::max(x->t_submit, prev), x->timeout, "timeout");
        prev = x->t_done;
        count("requests");
    }
    for(auto& it : items) if(it.rec->calls != 1) violation("client-handler-twice", it.rec->str());
    if(c.fill(0) == false && c.ended()) violation("client-connection-dropped", "a timeout ended the connection; " + trace);
    if(k.l.pending()) violation("client-extra-connection", "a timeout made the client connect again; " + trace);
}
void sc_timeouts()
{
    Rng r(ctx().seed);
    long n = ctx().cases(400, 5000);
    std::atomic<long> next{0};
    std::vector<std::thread> ts;
    uint64_t base = r.next();
    for(int t = 0; t < 12; ++t)
        ts.emplace_back([&] {
            for(long i; (i = next++) < n;)
            {
                Rng g(base + (uint64_t)i * 7919);
                std::string trace;
                timeout_case(g, trace);
                distinct(fnv(trace));
                count("histories");
                if(i == 0) sample(trace);
            }
        });
    for(auto& t : ts) t.join();
    late_timeout.judge("timeout");
}

// Requests time out while the connection is still being made, or while the peer does not read.
void sc_backlog()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long rounds = ctx().cases(15, 120);
    for(long round = 0; round < rounds; ++round)
    {
        Cli k(2, "", false);
        net::faults().sndbuf = 4608;
        k.l.open(k.host, k.port, 2304);
        net::faults().send_max = r.chance(1, 2) ? 0 : 1 + (uint32_t)r.below(300);
        net::faults().send_again = again(r);
        net::faults().io_delay = r.chance(1, 2) ? 0 : 300;
        net::faults().handler_delay = r.chance(1, 2) ? 0 : 300;
        std::vector<RecP> recs;
        const int n = 60;
        for(int i = 0; i < n; ++i)
        {
            Req q;
            q.fc = r.chance(1, 2) ? 16 : 15;
            q.addr = (uint16_t)i;
            unsigned m = q.fc == 16 ? 123 : 1968;
            for(unsigned j = 0; j < m; ++j) q.values.push_back(q.fc == 16 ? r.u16() : (uint16_t)r.below(2));
            recs.push_back(make(i, (uint8_t)r.below(3), q, std::chrono::milliseconds(2 + r.below(4)), r.chance(1, 2)));
            k.submit(recs.back());
        }
        net::Sock c;
        if(!accept(k, c, "backlog")) break;
        for(auto& x : recs) if(!check_kind(x, Rsp::TIMEOUT, "the peer does not read")) return;
        auto last = make(n, 7, ref::random_request(r));
        last->req.addr = (uint16_t)n;
        k.submit(last);
        // now everything is read: whole frames of the requests, each at most once, in order, and the last one
        int prev = -1;
        bool found = false;
        while(!found)
        {
            Bytes f;
            if(!c.adu(f)) { violation("client-missing-frame", "the peer reads again, but the request in progress never arrives; " + std::to_string(prev) + " was the last; rest " + hex(c.in, 40), true); break; }
            int id = f.size() >= 10 ? (int)ref::get16(f, 8) : -1;
            auto rec = id >= 0 && id < n ? recs[(size_t)id] : id == n ? last : nullptr;
            if(!rec || f != ref::adu((uint16_t)ref::get16(f, 0), rec->unit, ref::encode_request(rec->req))) { violation("client-wrong-frame", "a frame that is no request's after back-pressure: " + hex(f)); break; }
            if(id <= prev) { violation("client-order", "after back-pressure request " + std::to_string(id) + " came after " + std::to_string(prev)); break; }
            prev = id;
            count("frames");
            if(id == n)
            {
                found = true;
                c.write(ref::adu((uint16_t)ref::get16(f, 0), last->unit, ref::encode_response(last->req.fc, ref::device_response(7, last->req, 1))));
                if(!check(last, ref::device_response(7, last->req, 1), "after back-pressure")) break;
                if(!quiet(c, "after back-pressure")) break;
            }
        }
        count("histories");
        distinct((uint64_t)round * 1000 + (uint64_t)prev);
        if(round == 0) sample("60 requests of the maximum size to a peer that does not read, then one more");
        net::faults().sndbuf = 0;
        clear_faults();
        if(!found) break;
    }
    note_faults();
}

// ---- polling ----
struct Poll
{
    std::shared_ptr<modbus::IScheduledRequest> s;
    Req req;
    uint8_t unit = 1;
    std::mutex m;
    std::vector<Clock::time_point> done;
    std::vector<Rsp> outcomes;
    std::vector<Clock::time_point> frames; // at the peer
    size_t completions()
    {
        std::lock_guard<std::mutex> l(m);
        return done.size();
    }
};

// A random walk of one scheduled request, checked against a model which knows what every poll is due to:
// an effective start (at once), or a period that passed since the last completion of an uninterrupted run.
void poll_walk(Rng& r, std::string& trace)
{
    Cli k(1 + (unsigned)r.below(3));
    struct P
    {
        std::shared_ptr<modbus::IScheduledRequest> s;
        Cli& k;
        std::mutex m;
        size_t n = 0;
        Clock::time_point last;
        Rsp outcome;
        std::function<void()> hook; // run by the next completion
        ~P()
        {
            lib::end_manager(k.mgr, "client-end-hangs");
            s.reset();
        }
    } p{nullptr, k};
    net::Sock c;
    const bool timed = r.chance(1, 2);
    auto ms = [](int64_t v) { return std::chrono::milliseconds(v); };
    auto us = [](int64_t v) { return std::chrono::microseconds(v); };
    modbus::duration_t period = timed ? modbus::duration_t(us((int64_t)(8000 + r.below(25000)))) : modbus::duration_t(std::chrono::hours(1 + r.below(3)));
    modbus::duration_t timeout = r.chance(1, 2) ? modbus::duration_t(LONG) : modbus::duration_t(std::chrono::hours(2));
    const uint8_t unit = (uint8_t)(1 + r.below(3));
    Req req;
    do req = ref::random_request(r);
    while(!ref::is_read(req.fc));
    trace += timed ? "walk " + std::to_string(duration_cast<std::chrono::milliseconds>(period).count()) + ":" : "walk:";
    // the model
    bool running = true, chain = false, outstanding = false;
    int certain = 1, maybe = 0;
    uint16_t tid = 0;
    modbus::duration_t chain_period{};
    Clock::time_point completed;
    bool bad = false;
    uint64_t polls = 0;
    auto fail = [&](const std::string& key, const std::string& what, bool soft = false) { if(!bad) violation(key, what + "; " + trace, soft); bad = true; };
    p.s = lib::schedule(*k.session(unit, timeout), req, DEFAULT, period, [&p](const Rsp& o) {
        Cli::Inside i(p.k.inside);
        std::function<void()> h;
        {
            std::lock_guard<std::mutex> l(p.m);
            h.swap(p.hook);
        }
        if(h) h();
        std::lock_guard<std::mutex> l(p.m);
        ++p.n;
        p.last = Clock::now();
        p.outcome = o;
    });
    auto do_start = [&] {
        trace += "+";
        p.s->start();
        if(!running) { running = true; ++certain; }
    };
    auto do_stop = [&] {
        trace += "-";
        p.s->stop();
        auto now = Clock::now();
        // the expiry may have come before
        if(chain && now >= completed + chain_period) ++maybe;
        chain = false;
        running = false;
    };
    auto some = [&](Rng& g) {
        unsigned n = 1 + (unsigned)g.below(4);
        for(unsigned i = 0; i < n; ++i) if(g.chance(1, 2)) do_start(); else do_stop();
    };
    auto on_poll = [&](const Bytes& f, Clock::time_point t) {
        ++polls;
        count("polls");
        trace += "p";
        tid = (uint16_t)ref::get16(f, 0);
        if(outstanding) { fail("client-order", "a poll was sent while another waits for its response"); return; }
        outstanding = true;
        if(certain > 0) --certain;
        else if(chain && t - completed >= chain_period) {}
        else if(maybe > 0) --maybe;
        else if(!chain) fail(running ? "client-poll-extra" : "client-poll-after-stop", "a poll that nothing is the reason of");
        else fail("client-poll-early", "a poll came " + std::to_string(duration_cast<std::chrono::microseconds>(t - completed).count()) + " us after the last completion, the period is " + std::to_string(duration_cast<std::chrono::microseconds>(chain_period).count()) + " us");
        chain = false;
    };
    // one poll, if one comes within this time
    auto read = [&](double seconds) {
        Bytes f;
        if(!c.adu(f, seconds)) return false;
        auto t = Clock::now();
        if(f != ref::adu((uint16_t)ref::get16(f, 0), unit, ref::encode_request(req))) { fail("client-wrong-frame", "polling: " + hex(f)); return false; }
        on_poll(f, t);
        return !bad;
    };
    auto answer = [&] {
        Bytes pdu = ref::encode_response(req.fc, ref::device_response(unit, req, (uint64_t)tid));
        if(r.chance(1, 4)) pdu = ref::exception_pdu(req.fc, (uint8_t)(1 + r.below(4)));
        else if(r.chance(1, 6)) pdu.push_back(1);
        auto want = ref::decode_response(req, pdu);
        size_t before;
        if(r.chance(1, 3))
        {
            uint64_t seed = r.next();
            std::lock_guard<std::mutex> l(p.m);
            p.hook = [&, seed] { Rng g(seed); trace += "("; some(g); trace += ")"; };
        }
        { std::lock_guard<std::mutex> l(p.m); before = p.n; }
        auto period_then = period;
        c.write(ref::adu(tid, unit, pdu));
        if(!eventually([&] { std::lock_guard<std::mutex> l(p.m); return p.n > before; })) { fail("client-never-completed", "a poll never completed", true); return; }
        std::lock_guard<std::mutex> l(p.m);
        if(p.n != before + 1) { fail("client-handler-twice", "a poll completed twice"); return; }
        if(p.outcome != want) { fail(std::string("client-outcome:") + kind_name(want) + ":" + kind_name(p.outcome), "polling: " + p.outcome.str() + ", expected " + want.str()); return; }
        trace += "a";
        outstanding = false;
        completed = p.last;
        chain_period = period_then;
        chain = running && certain == 0;
    };
    // what is due has to come
    auto due = [&] {
        if(bad || outstanding || !(certain > 0 || (timed && chain))) return;
        if(!read(WATCHDOG_S) && !bad) fail("client-poll-missing", certain > 0 ? "no poll after a start" : "the next poll never came", true);
    };
    struct Last // the callbacks refer to what was declared so far
    {
        Cli& k;
        ~Last() { lib::end_manager(k.mgr, "client-end-hangs"); }
    } last{k};
    if(!accept(k, c, "polling")) return;
    unsigned steps = 8 + (unsigned)r.below(16);
    for(unsigned i = 0; i < steps && !bad; ++i)
    {
        switch(r.below(8))
        {
        case 0: do_start(); break;
        case 1: do_stop(); break;
        case 2: some(r); break;
        case 3: { double t = (double)r.below(timed ? 20000 : 3000) * 1e-6; if(!outstanding) read(t); else std::this_thread::sleep_for(std::chrono::duration<double>(t)); } break;
        case 4:
            if(!timed) break;
            trace += "f";
            period = us((int64_t)(8000 + r.below(25000)));
            p.s->set_frequency(period);
            break;
        case 5: // the callbacks of the channel are busy while things happen
        {
            if(outstanding) break;
            auto aux = make(1, 99, ref::random_request(r));
            uint64_t seed = r.next();
            auto pause = std::chrono::microseconds(r.below(timed ? 40000 : 1000));
            trace += "b";
            // nothing but the other request's callback starts and stops meanwhile
            k.submit(aux, [&, seed, pause](const RecP&) { { std::lock_guard<std::mutex> l(p.m); } Rng g(seed); trace += "["; some(g); trace += "]"; std::this_thread::sleep_for(pause); });
            for(bool found = false; !found && !bad;)
            {
                Bytes f;
                if(!c.adu(f)) { fail("client-missing-frame", "a request between polls was never sent", true); break; }
                auto t = Clock::now();
                if(f.size() > 6 && f[6] == 99)
                {
                    uint16_t id = (uint16_t)ref::get16(f, 0);
                    if(f != ref::adu(id, 99, ref::encode_request(aux->req))) { fail("client-wrong-frame", hex(f)); break; }
                    found = true;
                    { std::lock_guard<std::mutex> l(p.m); } // what was done up to here is visible to the callback
                    c.write(ref::adu(id, 99, ref::encode_response(aux->req.fc, ref::device_response(99, aux->req, 1))));
                    if(!check(aux, ref::device_response(99, aux->req, 1), trace)) bad = true;
                    if(!eventually([&] { return k.completions > 0; })) bad = true;
                    k.completions = 0;
                }
                else
                {
                    on_poll(f, t);
                    if(!bad) answer();
                }
            }
            break;
        }
        case 6:
            if(!outstanding && r.chance(1, 2)) due();
            break;
        default:
            due();
            if(outstanding && !bad) answer();
            break;
        }
        if(!bad && outstanding && r.chance(1, 2)) answer();
        if(!bad && r.chance(1, 6))
        {
            bool want = running;
            if(!eventually([&] { return p.s->is_running() == want; })) fail("client-poll-state", std::string("is_running is not ") + (want ? "true" : "false"), true);
            if(p.s->get_frequency() != period && !eventually([&] { return p.s->get_frequency() == period; })) fail("client-poll-state", "another period than what was set", true);
        }
    }
    if(!bad && outstanding) answer();
    while(!bad && certain > 0) { due(); if(!bad) answer(); }
    if(!bad) do_stop();
    if(!bad && !eventually([&] { return !p.s->is_running(); })) fail("client-poll-state", "still running after stop", true);
    auto until = Clock::now() + (timed ? std::chrono::duration_cast<Clock::duration>(ms(45)) : std::chrono::duration_cast<Clock::duration>(ms(5)));
    while(!bad && Clock::now() < until)
        if(read(0.004) && !bad) answer();
    count("walk_polls", polls);
    count("walks");
}

// One channel, one scripted history of one or two polls.
void poll_case(Rng& r, std::string& trace)
{
    Cli k(1 + (unsigned)r.below(3));
    // a poll and its handler refer to each other
    struct Polls
    {
        std::vector<std::shared_ptr<Poll>> v;
        Cli& k;
        ~Polls()
        {
            lib::end_manager(k.mgr, "client-end-hangs");
            for(auto& p : v) p->s.reset();
        }
    } polls{{}, k};
    net::Sock c;
    auto ms = [](int64_t v) { return std::chrono::milliseconds(v); };
    auto arrives = [&](const std::shared_ptr<Poll>& p, uint16_t& tid, double s = WATCHDOG_S) {
        Bytes f;
        if(!c.adu(f, s)) return false;
        tid = (uint16_t)ref::get16(f, 0);
        if(f != ref::adu(tid, p->unit, ref::encode_request(p->req))) { violation("client-wrong-frame", "polling: " + hex(f)); return false; }
        std::lock_guard<std::mutex> l(p->m);
        p->frames.push_back(Clock::now());
        count("polls");
        return true;
    };
    auto start = [&](modbus::duration_t timeout, modbus::duration_t period, uint8_t unit, bool valid = true) {
        auto p = std::make_shared<Poll>();
        polls.v.push_back(p);
        do p->req = ref::random_request(r);
        while(!ref::is_read(p->req.fc));
        if(!valid) p->req.qty = r.chance(1, 3) ? (uint16_t)0 : r.chance(1, 2) ? (uint16_t)(p->req.fc <= 2 ? 2001 : 126) : (uint16_t)(2001 + r.below(63000));
        p->unit = unit;
        bool def = r.chance(1, 2);
        auto s = def ? k.session(unit, timeout) : k.session(unit, std::chrono::hours(1));
        Cli* kp = &k;
        p->s = lib::schedule(*s, p->req, def ? DEFAULT : timeout, period, [p, kp](const Rsp& o) {
            Cli::Inside i(kp->inside);
            std::lock_guard<std::mutex> l(p->m);
            p->done.push_back(Clock::now());
            p->outcomes.push_back(o);
        });
        return p;
    };
    auto missing = [&](const char* what) { violation("client-poll-missing", std::string(what) + "; " + trace, true); };
    auto respond = [&](const std::shared_ptr<Poll>& p, uint16_t tid, Rsp& want) {
        Bytes pdu = ref::encode_response(p->req.fc, ref::device_response(p->unit, p->req, (uint64_t)tid));
        if(r.chance(1, 4)) pdu = ref::exception_pdu(p->req.fc, (uint8_t)(1 + r.below(4)));
        else if(r.chance(1, 6)) pdu.push_back(1);
        want = ref::decode_response(p->req, pdu);
        c.write(ref::adu(tid, p->unit, pdu));
    };
    auto settle = [&](const std::shared_ptr<Poll>& p, size_t n, const Rsp& want) {
        if(!eventually([&] { return p->completions() >= n; })) { violation("client-never-completed", "a poll never completed; " + trace, true); return false; }
        std::lock_guard<std::mutex> l(p->m);
        if(p->outcomes[n - 1] != want) { violation(std::string("client-outcome:") + kind_name(want) + ":" + kind_name(p->outcomes[n - 1]), "polling: " + p->outcomes[n - 1].str() + ", expected " + want.str()); return false; }
        return true;
    };
    auto gap_ok = [&](const std::shared_ptr<Poll>& p, modbus::duration_t period, bool soft = false) {
        std::lock_guard<std::mutex> l(p->m);
        if(p->frames.size() < 2 || p->done.size() < p->frames.size() - 1) return true;
        auto gap = p->frames.back() - p->done[p->frames.size() - 2];
        late_poll.note(gap, period, "poll");
        if(gap >= period) return true;
        violation("client-poll-early", "a poll came " + std::to_string(duration_cast<std::chrono::microseconds>(gap).count()) + " us after the last completion, the period is " +
                                           std::to_string(duration_cast<std::chrono::microseconds>(period).count()) + " us; " + trace, soft);
        return false;
    };

    switch(r.below(8))
    {
    case 7: // a request which can never be sent: every poll fails, and the polls go on
    {
        auto period = std::chrono::microseconds(1000 + r.below(8000));
        trace += "invalid " + std::to_string(period.count());
        auto p = start(LONG, period, 1, false);
        for(int run = 0; run < 2; ++run)
        {
            size_t from = p->completions(), want = from + 4 + r.below(6);
            if(run) p->s->start();
            if(!eventually([&] { return p->completions() >= want; })) { missing("the next poll of an invalid request never failed"); return; }
            if(!p->s->is_running()) { violation("client-poll-state", "not running; " + trace); return; }
            p->s->stop();
            if(!eventually([&] { return !p->s->is_running(); })) { violation("client-poll-state", "still running after stop", true); return; }
            std::this_thread::sleep_for(ms(2));
            size_t after = p->completions();
            std::this_thread::sleep_for(period * 3);
            // one may have been under way when it was stopped
            if(p->completions() > after + 1) { violation("client-poll-after-stop", "polls of an invalid request after stop; " + trace); return; }
            std::lock_guard<std::mutex> l(p->m);
            for(size_t i = from; i < p->done.size(); ++i)
            {
                count("polls");
                if(p->outcomes[i].kind != Rsp::BAD_REQUEST) { violation("client-outcome:bad-request:" + std::string(kind_name(p->outcomes[i])), "a poll of an invalid request gave " + p->outcomes[i].str() + "; " + trace); return; }
                if(i > from + 1 && p->done[i] - p->done[i - 1] < period) { violation("client-poll-early", "a poll of an invalid request came " + std::to_string(duration_cast<std::chrono::microseconds>(p->done[i] - p->done[i - 1]).count()) + " us after the last; " + trace); return; }
            }
        }
        if(k.l.pending()) violation("client-invalid-connects", "polls of an invalid request made a connection; " + trace);
        count("invalid_polls");
        break;
    }
    case 0: // the first poll at once, then one per period, whatever the outcome; stop ends it
    {
        auto period = std::chrono::microseconds(1000 + r.below(25000));
        trace += "plain " + std::to_string(period.count());
        auto p = start(LONG, period, 1);
        if(!accept(k, c, "polling")) return;
        unsigned n = 3 + (unsigned)r.below(6);
        for(unsigned i = 0; i < n; ++i)
        {
            uint16_t tid;
            if(!arrives(p, tid)) { missing("the next poll never came"); return; }
            if(!gap_ok(p, period)) return;
            if(i == 1 && r.chance(1, 2)) p->s->start(); // already running: no effect
            Rsp want;
            if(r.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(3000)));
            respond(p, tid, want);
            if(!settle(p, i + 1, want)) return;
        }
        if(p->s->get_frequency() != period || !p->s->is_running()) { violation("client-poll-state", "running " + std::to_string(p->s->is_running())); return; }
        p->s->stop();
        if(!eventually([&] { return !p->s->is_running(); })) { violation("client-poll-state", "still running after stop", true); return; }
        // a poll sent before stop took effect may still arrive
        std::this_thread::sleep_for(period * 3 + ms(5));
        uint16_t tid;
        int extra = 0;
        while(c.in.size() || c.fill(0)) { if(!arrives(p, tid, 0.01)) return; ++extra; }
        if(extra > 1) violation("client-poll-after-stop", std::to_string(extra) + " polls after stop; " + trace);
        break;
    }
    case 1: // a long period: exactly one poll
    {
        trace += "long";
        auto p = start(LONG, std::chrono::hours(1), 2);
        if(!accept(k, c, "polling")) return;
        uint16_t tid;
        if(!arrives(p, tid)) { missing("the first poll never came"); return; }
        Rsp want;
        respond(p, tid, want);
        if(!settle(p, 1, want)) return;
        std::this_thread::sleep_for(ms(15));
        if(!quiet(c, "polling with a period of an hour")) return;
        break;
    }
    case 2: // no answer: the next poll comes a period after the timeout
    {
        auto period = std::chrono::microseconds(5000 + r.below(20000));
        auto timeout = std::chrono::microseconds(3000 + r.below(20000));
        trace += "starved " + std::to_string(period.count()) + "/" + std::to_string(timeout.count());
        auto p = start(timeout, period, 1);
        if(!accept(k, c, "polling")) return;
        for(unsigned i = 0; i < 4; ++i)
        {
            uint16_t tid;
            if(!arrives(p, tid)) { missing("no poll after a timeout"); return; }
            if(!gap_ok(p, period)) return;
            Rsp want;
            want.kind = Rsp::TIMEOUT;
            if(!settle(p, i + 1, want)) return;
        }
        p->s->stop();
        break;
    }
    case 3: // stop and start storms do not multiply the polls
    {
        auto period = ms((int64_t)(25 + r.below(20)));
        trace += "storm " + std::to_string(period.count());
        auto p = start(LONG, period, 1);
        if(!accept(k, c, "polling")) return;
        int extra_runs = 0;
        bool in_progress = r.chance(1, 2);
        uint16_t tid;
        if(!arrives(p, tid)) { missing("the first poll never came"); return; }
        Rsp want;
        size_t n = 0;
        if(!in_progress) { respond(p, tid, want); if(!settle(p, ++n, want)) return; }
        int storms = 1 + (int)r.below(4);
        for(int i = 0; i < storms; ++i) { p->s->stop(); p->s->start(); ++extra_runs; if(r.chance(1, 3)) p->s->start(); }
        if(in_progress) { respond(p, tid, want); if(!settle(p, ++n, want)) return; }
        // the restarts' own polls, at once
        auto t0 = Clock::now();
        (void)t0;
        int at_once = 0;
        while(at_once < extra_runs)
        {
            if(!arrives(p, tid)) { missing("no poll after a restart"); return; }
            ++at_once;
            respond(p, tid, want);
            if(!settle(p, ++n, want)) return;
        }
        // from now on one poll per period
        for(unsigned i = 0; i < 4; ++i)
        {
            if(!arrives(p, tid)) { missing("no poll after the restarts"); return; }
            respond(p, tid, want);
            if(!settle(p, ++n, want)) return;
            // soft: the storm may have come later than the first period
            if(i > 0 && !gap_ok(p, period, true)) return;
        }
        p->s->stop();
        count("restarts", (uint64_t)extra_runs);
        break;
    }
    case 4: // another period, effective after the next poll
    {
        trace += "set_frequency";
        auto p = start(LONG, ms(4), 1);
        if(!accept(k, c, "polling")) return;
        uint16_t tid;
        Rsp want;
        if(!arrives(p, tid)) { missing("the first poll never came"); return; }
        auto longer = ms((int64_t)(40 + r.below(30)));
        p->s->set_frequency(longer);
        if(!eventually([&] { return p->s->get_frequency() == longer; })) { violation("client-poll-state", "the period was not taken over", true); return; }
        respond(p, tid, want);
        if(!settle(p, 1, want)) return;
        if(!arrives(p, tid)) { missing("no poll with the new period"); return; }
        if(!gap_ok(p, longer)) return;
        p->s->set_frequency(ms(2));
        if(!eventually([&] { return p->s->get_frequency() == ms(2); })) { violation("client-poll-state", "the period was not taken over", true); return; }
        respond(p, tid, want);
        if(!settle(p, 2, want)) return;
        if(!arrives(p, tid)) { missing("no poll with the shorter period"); return; }
        p->s->stop();
        break;
    }
    case 5: // two polls of one channel; one is stopped, the other goes on
    {
        trace += "stop one of two";
        auto p = start(LONG, ms(3), 1);
        auto q = start(LONG, ms(3), 2);
        if(!accept(k, c, "polling")) return;
        bool stopped = false;
        size_t np = 0, nq = 0, q_after = 0, p_after = 0;
        auto end = Clock::now() + std::chrono::seconds((int)WATCHDOG_S);
        while(q_after < 6)
        {
            Bytes f;
            if(!c.adu(f) || Clock::now() > end) { missing("a poll of the one that was not stopped"); return; }
            bool is_p = f[6] == 1;
            auto& x = is_p ? p : q;
            uint16_t tid = (uint16_t)ref::get16(f, 0);
            if(f != ref::adu(tid, x->unit, ref::encode_request(x->req))) { violation("client-wrong-frame", "polling: " + hex(f)); return; }
            count("polls");
            Rsp want;
            respond(x, tid, want);
            if(!settle(x, is_p ? ++np : ++nq, want)) return;
            // one may have been waiting behind the other's poll
            if(stopped && is_p && ++p_after > 1) { violation("client-poll-after-stop", "a stopped scheduled request polled; " + trace); return; }
            if(stopped && !is_p) ++q_after;
            if(!stopped && np >= 2 && nq >= 2)
            {
                p->s->stop();
                if(!eventually([&] { return !p->s->is_running(); })) { violation("client-poll-state", "still running after stop", true); return; }
                // one poll may be under way
                std::this_thread::sleep_for(ms(12));
                Bytes g;
                while(c.in.size() || c.fill(0))
                {
                    if(!c.adu(g, 0.05)) break;
                    bool gp = g[6] == 1;
                    auto& y = gp ? p : q;
                    Rsp w2;
                    respond(y, (uint16_t)ref::get16(g, 0), w2);
                    if(!settle(y, gp ? ++np : ++nq, w2)) return;
                    std::this_thread::sleep_for(ms(1));
                }
                stopped = true;
            }
        }
        q->s->stop();
        break;
    }
    default: // the connection fails: polling goes on
    {
        auto period = ms((int64_t)(2 + r.below(10)));
        trace += "reconnect";
        auto p = start(LONG, period, 1);
        size_t n = 0;
        for(int i = 0; i < 3; ++i)
        {
            if(!accept(k, c, "polling after a failure")) return;
            uint16_t tid;
            Rsp want;
            if(!arrives(p, tid)) { missing("no poll on the new connection"); return; }
            if(!gap_ok(p, period)) return;
            respond(p, tid, want);
            if(!settle(p, ++n, want)) return;
            if(!arrives(p, tid)) { missing("no second poll"); return; }
            if(r.chance(1, 2)) c.close();
            else c.reset_close();
            want = Rsp();
            want.kind = Rsp::CONNECTION;
            if(!settle(p, ++n, want)) return;
        }
        // the session's shutdown ends its polls
        if(!accept(k, c, "polling after a failure")) return;
        uint16_t tid;
        Rsp want;
        if(!arrives(p, tid)) { missing("no poll on the new connection"); return; }
        respond(p, tid, want);
        if(!settle(p, ++n, want)) return;
        { std::lock_guard<std::mutex> l(k.sess_mutex); for(auto& s : k.sess) s.second->shutdown(); }
        if(!eventually([&] { return !p->s->is_running(); })) { violation("client-poll-state", "still running after the session's shutdown", true); return; }
        std::this_thread::sleep_for(period * 2 + ms(3));
        int extra = 0;
        while(c.in.size() || c.fill(0)) { if(!arrives(p, tid, 0.01)) return; ++extra; }
        if(extra > 1) violation("client-poll-after-stop", std::to_string(extra) + " polls after the session's shutdown");
        break;
    }
    }
    lib::end_manager(k.mgr, "client-end-hangs");
}
void sc_polling()
{
    Rng r(ctx().seed);
    long n = ctx().cases(900, 6000);
    std::atomic<long> next{0};
    std::vector<std::thread> ts;
    uint64_t base = r.next();
    for(int t = 0; t < 10; ++t)
        ts.emplace_back([&] {
            for(long i; (i = next++) < n;)
            {
                Rng g(base + (uint64_t)i * 104729);
                std::string trace;
                if(i % 3) poll_walk(g, trace);
                else poll_case(g, trace);
                distinct(fnv(trace) ^ (uint64_t)i);
                count("histories");
                if(i < 3) sample(trace);
            }
        });
    for(auto& t : ts) t.join();
    late_poll.judge("poll");
}

// ---- session timers ----
void sc_timers()
{
    Rng r(ctx().seed);
    long rounds = ctx().cases(40, 200);
    for(long round = 0; round < rounds; ++round)
    {
        Cli k(1 + (unsigned)r.below(4), "", false);
        struct T
        {
            std::unique_ptr<modbus::ITimer> t;
            std::atomic<int> runs{0};
            Clock::time_point not_before, ran;
            bool must_run = true, must_not = false, dropped = false;
            int64_t us = 0;
            int mode = 0;
        };
        std::vector<std::shared_ptr<T>> ts;
        auto s = k.session(1);
        Cli* kp = &k;
        int n = 40;
        for(int i = 0; i < n; ++i)
        {
            auto t = std::make_shared<T>();
            t->mode = (int)r.below(8);
            t->us = r.chance(1, 6) ? 0 : r.range(-20000, 60000);
            auto action = [t, kp] {
                auto now = Clock::now();
                Cli::Inside in(kp->inside);
                t->ran = now;
                if(++t->runs > 1) violation("client-timer-twice", "a timer ran twice");
            };
            if(t->mode >= 6) // far away, and cancelled
            {
                t->us = 3600ll * 1000000;
                t->must_run = false;
                t->must_not = true;
            }
            auto d = std::chrono::microseconds(t->us);
            if(t->mode % 2)
            {
                t->not_before = Clock::now() + d;
                t->t = s->start(modbus::steady_time_t(t->not_before), action);
                if(t->t->expires_at() != t->not_before) violation("client-timer-expiration", "expires_at() differs from the time that was given");
            }
            else
            {
                auto before = Clock::now();
                t->not_before = before + d;
                t->t = s->start(modbus::duration_t(d), action);
                auto at = t->t->expires_at();
                if(at < before + d || at > Clock::now() + d) violation("client-timer-expiration", "expires_at() is not the duration from now");
            }
            count("timers");
            distinct((uint64_t)(round * 1000 + i));
            if(t->mode >= 6)
            {
                t->t->cancel();
                if(r.chance(1, 2)) t->t->cancel();
                if(r.chance(1, 2)) t->t.reset();
                count("cancelled");
            }
            else if(t->mode == 5)
            {
                t->t.reset(); // discarded, not cancelled
                count("discarded");
            }
            else if(t->mode == 4 && t->us > 0)
            {
                // cancelled at about its time: either way, and not twice
                t->must_run = false;
                auto tt = t;
                std::this_thread::sleep_for(std::chrono::microseconds(r.below((uint64_t)t->us / 4 + 1)));
                t->t->cancel();
                count("cancelled_late");
            }
            ts.push_back(t);
        }
        // a timer started from a timer
        std::atomic<int> chain{0};
        std::function<void()> step = [&] { if(++chain < 5) s->start(modbus::duration_t(std::chrono::milliseconds(1)), step); };
        s->start(modbus::duration_t(std::chrono::milliseconds(1)), step);
        if(!eventually([&] { return chain >= 5; })) violation("client-timer-missing", "a chain of timers stopped", true);
        for(auto& t : ts)
        {
            if(t->must_run && !eventually([&] { return t->runs > 0; })) { violation("client-timer-missing", "a timer of " + std::to_string(t->us) + " us never ran (mode " + std::to_string(t->mode) + ")", true); return; }
        }
        std::this_thread::sleep_for(std::chrono::milliseconds(15));
        for(auto& t : ts)
        {
            if(t->must_not && t->runs) violation("client-timer-cancelled", "a cancelled timer ran");
            if(t->runs == 1 && t->ran < t->not_before)
                violation("client-timer-early", "a timer of " + std::to_string(t->us) + " us ran " + std::to_string(duration_cast<std::chrono::microseconds>(t->not_before - t->ran).count()) + " us too early");
            if(t->runs == 1 && t->us > 0) late_timer.note(t->ran - t->not_before + std::chrono::microseconds(t->us), std::chrono::microseconds(t->us), "timer");
            if(t->t) t->t->cancel(); // harmless
            count("runs", (uint64_t)t->runs.load());
        }
        if(round == 0) sample("40 timers, by duration and by time, some cancelled, some discarded");
        // actions refer to what is below
        lib::end_manager(k.mgr, "client-end-hangs");
    }
    late_timer.judge("timer");
}

// ---- long histories, deep queues and extreme durations ----
// Everything submitted before the first response; and everything lost at once.
void sc_deep_queue()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    // answered one by one
    for(long round = 0; round < ctx().cases(1, 4); ++round)
    {
        Cli k(1 + (unsigned)r.below(3));
        const int T = 2, M = 2600 + (int)r.below(500);
        std::vector<std::vector<RecP>> recs(T);
        for(int t = 0; t < T; ++t)
            for(int i = 0; i < M; ++i)
            {
                Req q;
                q.fc = 6;
                q.addr = (uint16_t)(t * M + i);
                q.values = {r.u16()};
                recs[(size_t)t].push_back(make(t * M + i, (uint8_t)r.below(3), q));
            }
        std::vector<std::thread> ts;
        for(int t = 0; t < T; ++t) ts.emplace_back([&, t] { for(auto& x : recs[(size_t)t]) k.submit(x); });
        for(auto& t : ts) t.join();
        net::Sock c;
        if(!accept(k, c, "a deep queue")) return;
        int next[T] = {0, 0};
        for(int i = 0; i < T * M; ++i)
        {
            Bytes f;
            if(!c.adu(f)) { violation("client-missing-frame", "a queue of " + std::to_string(T * M) + " requests: frame " + std::to_string(i) + " never came", true); return; }
            int at = f.size() >= 10 ? (int)ref::get16(f, 8) : 0, t = at / M;
            if(t >= T || at % M != next[t]) { violation("client-order", "a queue of " + std::to_string(T * M) + " requests: frame " + hex(f) + " came instead of the next request of its thread"); return; }
            auto& x = recs[(size_t)t][(size_t)next[t]++];
            uint16_t tid = (uint16_t)ref::get16(f, 0);
            if(f != ref::adu(tid, x->unit, ref::encode_request(x->req))) { violation("client-wrong-frame", hex(f) + " for " + x->str()); return; }
            if(i % 8 == 0 && !quiet(c, "another request went out before the response")) return;
            c.write(ref::adu(tid, x->unit, ref::encode_response(6, ref::device_response(x->unit, x->req, 3))));
            count("frames");
        }
        for(auto& v : recs) for(auto& x : v)
        {
            if(!check(x, ref::device_response(x->unit, x->req, 3), "a deep queue")) return;
            if(x->calls != 1) violation("client-handler-twice", x->str());
            count("requests");
        }
        distinct((uint64_t)M);
        count("histories");
    }
    // lost at once, more than 65536 of them; the handlers of some submit again
    {
        const int M = 66000;
        std::vector<RecP> again;
        std::atomic<int> n_again{0}, completed{0};
        for(int i = 0; i < 20; ++i) again.push_back(random_rec(r, M + i));
        std::vector<std::atomic<int>> calls((size_t)M);
        for(auto& n : calls) n = 0;
        Cli k(2);
        std::shared_ptr<modbus::IClientSession> ss[3] = {k.session(0), k.session(1), k.session(2)};
        for(int i = 0; i < M; ++i)
        {
            modbus::ReadHoldingRegistersRequest q;
            q.starting_address = (uint16_t)i;
            q.qty_of_registers = 1;
            ss[i % 3]->send_request(q, LONG, [&, i](const modbus::Expected<modbus::ReadHoldingRegistersResponse>& e) {
                if(calls[(size_t)i]++) violation("client-handler-twice", "request " + std::to_string(i) + " of a deep queue, and the connection fails");
                // looking at every exception would take long
                if(e.is_valid()) violation("client-outcome:connection-error:value", "request " + std::to_string(i) + " of a deep queue, and the connection fails");
                else if(i % 50 == 7)
                {
                    auto o = lib::outcome(e);
                    if(o.kind != Rsp::CONNECTION) violation(std::string("client-outcome:connection-error:") + kind_name(o), "request " + std::to_string(i) + " of a deep queue, and the connection fails");
                }
                if(i % 3300 == 7) { int j = n_again++; if(j < 20) k.submit(again[(size_t)j]); }
                ++completed;
            });
        }
        net::Sock c;
        uint16_t tid;
        Bytes f;
        if(!accept(k, c, "a deep queue")) return;
        if(!c.adu(f)) { violation("client-missing-frame", "the first of a deep queue", true); return; }
        if(r.chance(1, 2)) c.reset_close();
        else c.close();
        for(int before = -1; before != completed && completed < M;)
        {
            before = completed;
            eventually([&] { return completed >= M; });
        }
        if(completed < M) { violation("client-never-completed", "of " + std::to_string(M) + " requests whose connection failed " + std::to_string(M - completed) + " never completed", true); return; }
        if(!accept(k, c, "after a deep queue was lost")) return;
        for(int i = 0; i < 20; ++i)
        {
            auto& x = again[(size_t)i];
            if(!frame(c, x, tid, "after a deep queue was lost")) return;
            c.write(ref::adu(tid, x->unit, ref::encode_response(x->req.fc, ref::device_response(x->unit, x->req, 4))));
            if(!check(x, ref::device_response(x->unit, x->req, 4), "after a deep queue was lost")) return;
        }
        if(completed != M) violation("client-handler-twice", std::to_string(completed) + " handler calls for " + std::to_string(M) + " requests");
        count("requests", (uint64_t)M + 20);
        count("histories");
    }
    // hundreds of timeouts in a row
    {
        Cli k(2);
        std::vector<RecP> recs;
        const int M = (int)ctx().cases(600, 3000);
        for(int i = 0; i < M; ++i)
        {
            recs.push_back(random_rec(r, i));
            recs.back()->timeout = std::chrono::microseconds(300 + r.below(700));
            k.submit(recs.back());
        }
        auto last = random_rec(r, M);
        last->use_default = false;
        last->timeout = LONG;
        k.submit(last);
        net::Sock c;
        if(!accept(k, c, "many timeouts")) return;
        for(auto& x : recs) if(!check_kind(x, Rsp::TIMEOUT, "never answered, one of many")) return;
        // those which went out, in order, and the last
        size_t next = 0;
        while(true)
        {
            Bytes f;
            if(!c.adu(f)) { violation("client-missing-frame", "after many timeouts the next request never came", true); return; }
            uint16_t tid = (uint16_t)ref::get16(f, 0);
            auto is = [&](const RecP& x) { return f == ref::adu(tid, x->unit, ref::encode_request(x->req)); };
            while(next < recs.size() && !is(recs[next])) ++next;
            if(next < recs.size()) { ++next; count("frames"); continue; }
            if(!is(last)) { violation("client-wrong-frame", "many timeouts: " + hex(f)); return; }
            c.write(ref::adu(tid, last->unit, ref::encode_response(last->req.fc, ref::device_response(last->unit, last->req, 5))));
            if(!check(last, ref::device_response(last->unit, last->req, 5), "after many timeouts")) return;
            break;
        }
        if(k.l.pending()) violation("client-extra-connection", "timeouts made the client connect again");
        count("requests", (uint64_t)M);
        count("histories");
    }
    sample("more than 5000 requests queued by two threads and answered; 66000 queued and lost with the connection; 600 timeouts in a row");
}

// One channel through hundreds of connections, with long runs of the same failure.
void sc_reconnect()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    const long cycles = ctx().cases(1500, 15000);
    Cli k(1 + (unsigned)r.below(3));
    net::Sock c;
    std::string run;
    int id = 0;
    long done = 0;
    std::map<int, int> longest;
    auto answered = [&](const std::string& what) {
        auto rec = random_rec(r, id++);
        k.submit(rec);
        if(!c.ok() && !accept(k, c, what)) return false;
        uint16_t tid;
        if(!frame(c, rec, tid, what)) return false;
        c.write(ref::adu(tid, rec->unit, ref::encode_response(rec->req.fc, ref::device_response(rec->unit, rec->req, 9))));
        return check(rec, ref::device_response(rec->unit, rec->req, 9), what);
    };
    while(done < cycles)
    {
        int how = (int)r.below(8);
        int len = r.chance(1, 3) ? 150 + (int)r.below(150) : 1 + (int)r.below(20);
        longest[how] = std::max(longest[how], len);
        const std::string what = "run of " + std::to_string(len) + " failures of kind " + std::to_string(how) + " after " + std::to_string(done) + " connections";
        if(how < 4 && c.ok())
        {
            c.half_close();
            if(!c.wait_end()) { violation("client-close-not-followed", what, true); return; }
            c.close();
        }
        if(how == 3) k.l.close();
        for(int i = 0; i < len; ++i, ++done)
        {
            auto rec = random_rec(r, id++);
            auto& f = net::faults();
            if(how == 0) f.resolve_errors = 1;
            else if(how == 1) { f.connect_errno = ECONNREFUSED; f.connect_errors = 1; }
            else if(how == 2) { f.connect_errno = ENETUNREACH; f.connect_errors = 1; }
            k.submit(rec);
            if(how >= 4)
            {
                if(!c.ok() && !accept(k, c, what)) return;
                uint16_t tid;
                if(!frame(c, rec, tid, what)) return;
                if(how == 4) c.close();
                else if(how == 5) c.reset_close();
                else if(how == 6) { auto a = ref::adu(tid, rec->unit, ref::encode_response(rec->req.fc, ref::device_response(rec->unit, rec->req, 9))); a.resize(1 + r.below(a.size() - 1)); c.write(a); c.close(); }
                else
                {
                    // answered; the peer then closes the idle connection
                    c.write(ref::adu(tid, rec->unit, ref::encode_response(rec->req.fc, ref::device_response(rec->unit, rec->req, 9))));
                    if(!check(rec, ref::device_response(rec->unit, rec->req, 9), what)) return;
                    c.half_close();
                    if(!c.wait_end()) { violation("client-close-not-followed", what, true); return; }
                    c.close();
                    count("requests");
                    continue;
                }
            }
            if(!check_kind(rec, Rsp::CONNECTION, what)) return;
            if(rec->calls != 1) { violation("client-handler-twice", what + " " + rec->str()); return; }
            count("requests");
        }
        if(how == 3) k.l.open(k.host, k.port);
        for(int i = 0, n = 1 + (int)r.below(3); i < n; ++i) if(!answered("after a " + what)) return;
        if(k.l.pending()) { violation("client-extra-connection", "after a " + what); return; }
        count("histories");
        distinct(fnv(what));
        run = what;
    }
    for(auto& l : longest) count("longest_run_of_kind_" + std::to_string(l.first), (uint64_t)l.second);
    net::faults().connect_errno = ENETUNREACH;
    note_faults();
    sample(run);
}

// Durations around the limits of narrower integers, in every unit: none may pass early.
void sc_durations()
{
    Rng r(ctx().seed);
    using modbus::duration_t;
    std::vector<duration_t> all;
    for(int64_t unit : {1ll, 1000ll, 1000000ll, 1000000000ll})
        for(int bits : {16, 31, 32})
            for(int64_t times : {1ll, 2ll, 5ll})
            {
                if(unit == 1000000000ll && bits > 16 && times > 2) continue; // beyond what a clock can tell
                auto d = duration_t(times * (1ll << bits) * unit);
                for(auto small : {duration_t(0), duration_t(std::chrono::milliseconds(4)), duration_t(-1)})
                    if(d > std::chrono::seconds(1)) all.push_back(d + small);
            }
    for(auto h : {1, 24, 24 * 365, 24 * 365 * 80}) all.push_back(std::chrono::hours(h));
    auto text = [](duration_t d) { return std::to_string(duration_cast<std::chrono::microseconds>(d).count()) + " us"; };
    const auto wait = std::chrono::milliseconds(60);
    for(long round = 0; round < ctx().cases(1, 6); ++round)
    {
        auto began = Clock::now();
        // a second at least, so a machine that stalls is no matter
        auto in_time = [&] { return Clock::now() - began < std::chrono::milliseconds(900); };
        const size_t GROUP = 12;
        for(size_t at = 0; at < all.size(); at += GROUP)
        {
            std::vector<duration_t> some(all.begin() + (long)at, all.begin() + (long)std::min(at + GROUP, all.size()));
            struct One
            {
                Cli k{1};
                net::Sock c;
                RecP rec;
                uint16_t tid = 0;
                std::shared_ptr<modbus::IScheduledRequest> poll;
                Req preq;
                std::atomic<int> polls{0};
                ~One()
                {
                    lib::end_manager(k.mgr, "client-end-hangs");
                    poll.reset();
                }
            };
            std::vector<std::unique_ptr<One>> ones;
            began = Clock::now();
            for(auto d : some)
            {
                // a request with this timeout on one channel, a poll with this period on another
                ones.push_back(std::make_unique<One>());
                auto& o = *ones.back();
                o.rec = random_rec(r, 1);
                o.rec->timeout = d;
                o.k.submit(o.rec);
                if(!accept(o.k, o.c, "timeout of " + text(d)) || !frame(o.c, o.rec, o.tid, "timeout of " + text(d))) return;
                ones.push_back(std::make_unique<One>());
                auto& p = *ones.back();
                do p.preq = ref::random_request(r);
                while(!ref::is_read(p.preq.fc));
                One* pp = &p;
                p.poll = lib::schedule(*p.k.session(3, d), p.preq, DEFAULT, d, [pp](const Rsp&) { ++pp->polls; });
                if(!accept(p.k, p.c, "poll every " + text(d))) return;
                Bytes f;
                if(!p.c.adu(f)) { violation("client-missing-frame", "the first poll of one every " + text(d), true); return; }
                auto tid = (uint16_t)ref::get16(f, 0);
                p.c.write(ref::adu(tid, 3, ref::encode_response(p.preq.fc, ref::device_response(3, p.preq, 1))));
                if(!eventually([&] { return p.polls.load() > 0; })) { violation("client-never-completed", "the first poll of one every " + text(d), true); return; }
            }
            // timers with these durations on one channel
            std::atomic<int> ran{0};
            Cli k(1, "", false);
            std::vector<std::unique_ptr<modbus::ITimer>> timers;
            auto s = k.session(1);
            for(auto d : some)
            {
                auto before = Clock::now();
                timers.push_back(s->start(d, [&] { ++ran; }));
                auto e = timers.back()->expires_at();
                if(e < before + d || e > Clock::now() + d) violation("client-timer-expiration", "a timer of " + text(d) + " is said to expire after " + text(e - before));
                auto due = Clock::now() + d;
                timers.push_back(s->start(modbus::steady_time_t(due), [&] { ++ran; }));
                if(timers.back()->expires_at() != due) violation("client-timer-expiration", "a timer due in " + text(d) + " is said to expire otherwise");
                count("timers", 2);
            }
            std::this_thread::sleep_for(wait);
            bool judge = in_time();
            for(size_t i = 0; i < some.size() && judge; ++i)
            {
                auto& o = *ones[2 * i];
                auto& p = *ones[2 * i + 1];
                if(o.rec->done) { violation("client-timeout-early", "a request with a timeout of " + text(some[i]) + " gave " + o.rec->rsp.str() + " within a second"); return; }
                o.c.write(ref::adu(o.tid, o.rec->unit, ref::encode_response(o.rec->req.fc, ref::device_response(o.rec->unit, o.rec->req, 2))));
                if(!check(o.rec, ref::device_response(o.rec->unit, o.rec->req, 2), "timeout of " + text(some[i]))) return;
                if(p.polls != 1 || !p.c.quiet()) { violation("client-poll-early", "one poll every " + text(some[i]) + ", but another came within a second"); return; }
                distinct((uint64_t)some[i].count());
                count("requests");
                count("polls");
            }
            if(judge && ran) { violation("client-timer-early", std::to_string(ran) + " of the timers of " + text(some[0]) + " and more ran within a second"); return; }
            for(auto& t : timers) t->cancel();
            for(auto& o : ones) if(o->poll) o->poll->stop();
            if(!judge) count("groups_on_a_machine_too_slow_to_judge");
            count("histories");
            lib::end_manager(k.mgr, "client-end-hangs");
        }
    }
    sample("timeouts, periods and timers of 2^16, 2^31 and 2^32 ns, us, ms and s, times 1, 2 and 5, and 4 ms more or 1 ns less");
}

} // namespace

int main(int argc, char** argv)
{
    return run_main(argc, argv, {{"wire", sc_wire}, {"limits", sc_limits}, {"responses", sc_responses}, {"sweep", sc_sweep}, {"segments", sc_segments}, {"correlate", sc_correlate},
                                 {"tids", sc_tids}, {"order", sc_order}, {"chaos", sc_chaos}, {"disconnect", sc_disconnect}, {"timeouts", sc_timeouts},
                                 {"backlog", sc_backlog}, {"polling", sc_polling}, {"timers", sc_timers},
                                 {"deep_queue", sc_deep_queue}, {"reconnect", sc_reconnect}, {"durations", sc_durations}});
}
