// The library's own client against its own server, and the end of managers and channels.
#define VH_INTERPOSE
#include "net.h"
#include "lib.h"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#endif
#endif

using namespace vh;
using ref::Bytes;
using ref::Req;
using ref::Rsp;
using std::chrono::milliseconds;

namespace
{

constexpr auto LONG = std::chrono::minutes(30);
std::atomic<bool> leaks_expected{false};

// What a device answers: values, or an exception for some addresses.
Rsp plan(uint8_t unit, const Req& q, uint64_t salt)
{
    uint8_t b[5] = {unit, q.fc, (uint8_t)(q.addr >> 8), (uint8_t)q.addr, 33};
    uint64_t h = fnv(b, 5, salt ^ 0x5151);
    h ^= h >> 31;
    if(h % 6 == 0)
    {
        Rsp r;
        r.kind = Rsp::MODBUS_EX;
        r.ex = lib::KNOWN_CODES[(h >> 8) % 9];
        return r;
    }
    return ref::device_response(unit, q, salt);
}

struct Call
{
    uint8_t unit;
    Req q;
    bool operator==(const Call& o) const { return unit == o.unit && q == o.q; }
};

void set_faults(Rng& r)
{
    auto& f = net::faults();
    f.recv_max = r.chance(1, 2) ? 0 : 1 + (uint32_t)r.below(r.chance(1, 2) ? 5 : 60);
    f.send_max = r.chance(1, 2) ? 0 : 1 + (uint32_t)r.below(r.chance(1, 2) ? 5 : 100);
    f.send_again = r.chance(2, 3) ? 0 : r.chance(1, 2) ? 30 : 200;
    f.io_delay = r.chance(2, 3) ? 0 : 300;
    f.handler_delay = r.chance(2, 3) ? 0 : 300;
}
void clear_faults()
{
    auto& f = net::faults();
    f.recv_max = f.send_max = f.send_again = f.io_delay = f.handler_delay = f.resolve_delay = 0;
    f.recv_errors = f.send_errors = f.connect_errors = f.bind_errors = f.resolve_errors = f.accept_errors = 0;
    f.sndbuf = 0;
}
void note_faults()
{
    auto& f = net::faults();
    count("injected_delays", f.n_delays);
    count("injected_short_recv", f.n_short_recv);
    count("injected_short_send", f.n_short_send);
    count("writes_put_off_to_io_threads", f.n_send_again);
    count("injected_accept_errors", f.n_accept_fail);
    count("injected_connect_errors", f.n_connect_fail);
    count("injected_resolve_errors", f.n_resolve_fail);
}

// ---- client and server of the library, any number of channels ----
void sc_fidelity()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long rounds = ctx().cases(80, 500);
    for(long round = 0; round < rounds; ++round)
    {
        set_faults(r);
        const uint64_t salt = r.next();
        auto smgr = modbus::IModbusManager::create(lib::counting_logger(), 1 + (unsigned)r.below(3));
        bool one_manager = r.chance(1, 4);
        auto cmgr = one_manager ? nullptr : modbus::IModbusManager::create(lib::counting_logger(), 1 + (unsigned)r.below(3));
        auto& cm = one_manager ? *smgr : *cmgr;
        auto host = net::own_host();
        auto port = net::next_port();
        auto sch = smgr->create_server_tcp_channel("srv", modbus::Ipv4Endpoint{host, port}, 16, modbus::LoggingLevel::Trace);
        std::mutex m;
        std::vector<Call> calls; // of the whole server channel
        std::atomic<bool> busy{false};
        std::vector<uint8_t> units;
        for(unsigned n = 1 + (unsigned)r.below(4); units.size() < n;)
        {
            uint8_t u = r.chance(1, 2) ? (uint8_t)r.pick(std::vector<int>{0, 1, 247, 254, 255}) : r.u8();
            if(std::find(units.begin(), units.end(), u) == units.end()) units.push_back(u);
        }
        for(auto u : units)
        {
            auto s = std::make_shared<lib::RecSession>(u, [salt](uint8_t unit, const Req& q) { return plan(unit, q, salt); });
            s->busy = &busy;
            s->on_call = [&m, &calls, u](const Req& q) {
                std::lock_guard<std::mutex> l(m);
                calls.push_back({u, q});
            };
            sch->add_session(modbus::UnitIdentifier{u}, s);
        }
        sch->start();

        struct Chan
        {
            std::shared_ptr<modbus::IClientChannel> ch;
            std::map<uint8_t, std::shared_ptr<modbus::IClientSession>> sess;
            std::atomic<int> inside{0};
        };
        int nch = 1 + (int)r.below(3);
        std::vector<std::unique_ptr<Chan>> chans;
        for(int i = 0; i < nch; ++i)
        {
            chans.emplace_back(new Chan);
            chans.back()->ch = cm.create_client_tcp_channel("cli" + std::to_string(i), modbus::Ipv4Endpoint{host, port}, "", modbus::LoggingLevel::Trace);
            for(auto u : units) chans.back()->sess[u] = chans.back()->ch->create_session(modbus::UnitIdentifier{u}, LONG);
        }
        struct One
        {
            int chan;
            uint8_t unit;
            Req q;
            std::atomic<int> runs{0};
            Rsp got;
        };
        std::vector<std::shared_ptr<One>> all;
        Gate gate;
        int n = 20 + (int)r.below(60);
        for(int i = 0; i < n; ++i)
        {
            auto o = std::make_shared<One>();
            o->chan = (int)r.below((uint64_t)nch);
            o->unit = r.pick(units);
            o->q = ref::random_request(r);
            all.push_back(o);
            auto c = chans[(size_t)o->chan].get();
            lib::send(*c->sess[o->unit], o->q, modbus::duration_t(-1), [o, c, &gate](const Rsp& x) {
                if(c->inside.fetch_add(1)) violation("client-callback-overlap", "two callbacks of one client channel ran at the same time");
                if(o->runs.fetch_add(1)) violation("e2e-handler-twice", "the handler of " + o->q.str() + " ran again, with " + x.str());
                else o->got = x;
                --c->inside;
                gate.arrive();
            });
        }
        if(!gate.wait((size_t)n, WATCHDOG_S))
            violation("e2e-never-completed", std::to_string((size_t)n - gate.get()) + " of " + std::to_string(n) + " requests never completed", true);
        for(auto& o : all)
        {
            if(!o->runs) continue;
            auto want = plan(o->unit, o->q, salt);
            if(!(o->got == want)) violation("e2e-outcome", "unit " + std::to_string(o->unit) + " " + o->q.str() + " gave " + o->got.str() + ", the device answered " + want.str());
            auto b = ref::encode_request(o->q);
            distinct(fnv(b.data(), b.size(), 7 + o->unit));
            count("requests");
        }
        // every channel's requests were seen once, in order, and nothing else
        if(gate.get() >= (size_t)n)
        {
            std::vector<Call> got;
            {
                std::lock_guard<std::mutex> l(m);
                got = calls;
            }
            if(got.size() != all.size()) violation("e2e-session-calls", std::to_string(got.size()) + " session calls for " + std::to_string(all.size()) + " requests");
            else if(nch == 1)
            {
                for(size_t i = 0; i < all.size(); ++i)
                    if(!(got[i] == Call{all[i]->unit, all[i]->q}))
                    {
                        violation("e2e-session-calls", "call " + std::to_string(i) + " was unit " + std::to_string(got[i].unit) + " " + got[i].q.str() + ", sent was unit " + std::to_string(all[i]->unit) + " " + all[i]->q.str());
                        break;
                    }
            }
            else
            {
                for(auto& o : all)
                {
                    auto it = std::find(got.begin(), got.end(), Call{o->unit, o->q});
                    if(it == got.end()) { violation("e2e-session-calls", "unit " + std::to_string(o->unit) + " " + o->q.str() + " never reached a session as it was sent"); break; }
                    got.erase(it);
                }
            }
            count("session_calls", calls.size());
        }
        if(round == 0) sample(all[0]->q.str() + " -> " + all[0]->got.str());
        cmgr.reset();
        smgr.reset();
        clear_faults();
        if(ctx().violations > 10) break;
    }
    note_faults();
}

// ---- in-memory databases behind a server, one of them shared by two channels ----
struct Table
{
    std::map<uint16_t, uint16_t> v;
};
void sc_database()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long rounds = ctx().cases(60, 400);
    for(long round = 0; round < rounds; ++round)
    {
        set_faults(r);
        auto mgr = modbus::IModbusManager::create(lib::null_logger(), 2 + (unsigned)r.below(3));
        auto host = net::own_host();
        uint16_t ports[2] = {net::next_port(), net::next_port()};
        auto db = std::make_shared<modbus::InMemoryDatabase>();
        Table t[5]; // by function code of the reads
        const uint16_t base = r.chance(1, 2) ? (uint16_t)r.below(50) : (uint16_t)(65536 - 40 - r.below(30));
        for(int k = 1; k <= 4; ++k)
        {
            uint16_t from = r.chance(1, 3) ? (uint16_t)(65536 - 40) : base;
            int n = 20 + (int)r.below(150);
            for(int i = 0; i < n; ++i)
            {
                unsigned a = from + (unsigned)i;
                if(a > 65535) break;
                if(r.chance(1, 40)) continue; // a hole
                uint16_t v = k <= 2 ? (uint16_t)r.below(2) : r.u16();
                bool ok = k == 1 ? db->add_coil((uint16_t)a, v) : k == 2 ? db->add_discrete_input((uint16_t)a, v) : k == 3 ? db->add_holding_register((uint16_t)a, v) : db->add_input_register((uint16_t)a, v);
                if(!ok) violation("e2e-db-add", "adding a new address failed");
                t[k].v[(uint16_t)a] = v;
            }
        }
        // expected answer by the model
        auto answer = [&](const Req& q) {
            Rsp x;
            int k = q.fc <= 4 ? q.fc : (q.fc == 5 || q.fc == 15) ? 1 : 3;
            unsigned n = ref::is_read(q.fc) ? q.qty : (unsigned)q.values.size();
            for(unsigned i = 0; i < n; ++i)
                if(q.addr + i > 65535 || !t[k].v.count((uint16_t)(q.addr + i)))
                {
                    x.kind = Rsp::MODBUS_EX;
                    x.ex = 2;
                    return x;
                }
            if(ref::is_read(q.fc))
                for(unsigned i = 0; i < n; ++i) x.values.push_back({(uint16_t)(q.addr + i), t[k].v[(uint16_t)(q.addr + i)]});
            else
            {
                for(unsigned i = 0; i < n; ++i) t[k].v[(uint16_t)(q.addr + i)] = k == 1 ? (uint16_t)(q.values[i] != 0) : q.values[i];
                if(q.fc <= 6) x.values.push_back({q.addr, k == 1 ? (uint16_t)(q.values[0] != 0) : q.values[0]});
                else { x.addr = q.addr; x.qty = (uint16_t)n; }
            }
            return x;
        };
        std::vector<std::shared_ptr<modbus::IServerChannel>> schs;
        std::vector<std::shared_ptr<modbus::IClientSession>> cs;
        for(int i = 0; i < 2; ++i)
        {
            auto s = mgr->create_server_tcp_channel("srv", modbus::Ipv4Endpoint{host, ports[i]}, 16, modbus::LoggingLevel::Trace);
            s->add_session(modbus::UnitIdentifier{(uint8_t)(i + 1)}, db);
            s->start();
            schs.push_back(s);
            auto c = mgr->create_client_tcp_channel("cli", modbus::Ipv4Endpoint{host, ports[i]});
            cs.push_back(c->create_session(modbus::UnitIdentifier{(uint8_t)(i + 1)}, LONG));
        }
        int n = 40 + (int)r.below(80);
        for(int i = 0; i < n; ++i)
        {
            if(r.chance(1, 12))
            {
                // what the application sees of it
                int k = 1 + (int)r.below(4);
                if(t[k].v.empty()) continue;
                auto it = std::next(t[k].v.begin(), (long)r.below(t[k].v.size()));
                uint16_t a = it->first, nv = k <= 2 ? (uint16_t)r.below(2) : r.u16();
                bool wr = r.chance(1, 2);
                db->execute_transaction([&](modbus::IDatabase& d) {
                    bool b = false, ok;
                    uint16_t v = 0;
                    switch(k)
                    {
                    case 1: ok = d.get_coil(a, b); v = b; break;
                    case 2: ok = d.get_discrete_input(a, b); v = b; break;
                    case 3: ok = d.get_holding_register(a, v); break;
                    default: ok = d.get_input_register(a, v); break;
                    }
                    if(!ok || v != it->second) violation("e2e-db-state", "table " + std::to_string(k) + " address " + std::to_string(a) + " holds " + std::to_string(v) + ", expected " + std::to_string(it->second));
                    if(wr)
                    {
                        switch(k)
                        {
                        case 1: ok = d.set_coil(a, nv); break;
                        case 2: ok = d.set_discrete_input(a, nv); break;
                        case 3: ok = d.set_holding_register(a, nv); break;
                        default: ok = d.set_input_register(a, nv); break;
                        }
                        if(!ok) violation("e2e-db-state", "setting a known address failed");
                        it->second = nv;
                    }
                });
                count("transactions");
                continue;
            }
            auto q = ref::random_request(r);
            int k = q.fc <= 4 ? q.fc : (q.fc == 5 || q.fc == 15) ? 1 : 3;
            if(!t[k].v.empty() && r.chance(5, 6))
            {
                // mostly inside the table, of a size that fits often
                auto it = std::next(t[k].v.begin(), (long)r.below(t[k].v.size()));
                q.addr = it->first;
                unsigned len = 1 + (unsigned)r.below(r.chance(1, 2) ? 8 : 60);
                len = std::min(len, ref::max_qty(q.fc));
                if(ref::is_read(q.fc)) q.qty = (uint16_t)len;
                else if(q.fc >= 15)
                {
                    q.values.resize(len);
                    for(auto& v : q.values) v = q.fc == 15 ? (uint16_t)r.below(2) : r.u16();
                }
            }
            auto want = answer(q);
            Gate g;
            Rsp got;
            lib::send(*cs[r.below(2)], q, modbus::duration_t(-1), [&](const Rsp& x) { got = x; g.arrive(); });
            if(!g.wait(1, WATCHDOG_S)) { violation("e2e-never-completed", q.str() + " to a database never completed", true); mgr.reset(); return; }
            if(!(got == want)) violation("e2e-db-answer", q.str() + " gave " + got.str() + ", expected " + want.str());
            count("requests");
            if(want.kind == Rsp::MODBUS_EX) count("refused");
            auto b = ref::encode_request(q);
            distinct(fnv(b.data(), b.size(), fnv(want.str())));
            if(i == 0 && round == 0) sample(q.str() + " -> " + got.str());
        }
        mgr.reset();
        clear_faults();
        if(ctx().violations > 10) break;
    }
    note_faults();
}

// ---- ends ----
// What may still run is counted per history.
struct Life
{
    std::atomic<bool> dead{false};   // the manager's destructor has returned
    std::atomic<uint64_t> callbacks{0}, late{0};
    void touch(const char* what)
    {
        ++callbacks;
        if(dead)
        {
            ++late;
            violation("end-late-callback", std::string("after the manager's destruction: ") + what);
        }
    }
};
class LifeSession : public lib::RecSession
{
public:
    LifeSession(uint8_t unit, Planner p, std::shared_ptr<Life> life) : lib::RecSession(unit, std::move(p)), m_life(life)
    {
        on_call = [this](const Req& q) {
            m_life->touch("a server session was called");
            if(shutdowns) violation("end-session-called", "a server session was called after its shutdown: " + q.str());
        };
    }
    void shutdown() override
    {
        m_life->touch("a server session was shut down");
        lib::RecSession::shutdown();
    }

private:
    std::shared_ptr<Life> m_life;
};

// Runs f in another thread, and gives up on the process when it does not return.
template <class F> void must_return(const std::string& key, const std::string& what, F f)
{
    Gate g;
    std::thread t([&] {
        f();
        g.arrive();
    });
    if(!g.wait(1, WATCHDOG_S))
    {
        violation(key, what, true);
        fflush(nullptr);
        write_report();
        _exit(1);
    }
    t.join();
}

// A port whose connections never complete.
struct BlackHole
{
    net::Listener l;
    std::vector<int> fill;
    uint16_t port;
    explicit BlackHole(uint16_t p) : port(p)
    {
        l.open(net::own_host(), p);
        ::listen(l.fd, 0);
        for(int i = 0; i < 4; ++i)
        {
            int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
            auto a = net::addr(net::own_host(), p);
            syscall(SYS_connect, fd, &a, sizeof a);
            fill.push_back(fd);
        }
    }
    ~BlackHole()
    {
        for(int f : fill) ::close(f);
    }
};

enum PeerKind { ANSWERS, SILENT, CLOSES, GARBAGE };

// A raw server which serves any number of connections in the given way until it is destroyed.
class RawServer
{
public:
    RawServer(uint16_t port, PeerKind kind, uint64_t seed) : m_kind(kind), m_rng(seed)
    {
        m_l.open(net::own_host(), port);
        m_t = std::thread([this] { run(); });
    }
    ~RawServer() { stop(); }
    void stop()
    {
        m_stop = true;
        if(m_t.joinable()) m_t.join();
    }
    std::atomic<uint64_t> frames{0}, accepted{0}, ended{0}, ended_by_client{0};
    // all connections which were accepted have been ended by the client
    bool all_ended()
    {
        std::lock_guard<std::mutex> l(m_accepting);
        return !m_l.pending() && accepted == ended;
    }

private:
    void run()
    {
        std::vector<std::unique_ptr<net::Sock>> cs;
        while(!m_stop)
        {
            if(m_l.pending())
            {
                std::lock_guard<std::mutex> l(m_accepting); // a connection is pending or counted
                auto c = m_l.accept(0);
                if(c.ok())
                {
                    ++accepted;
                    cs.emplace_back(new net::Sock(std::move(c)));
                }
            }
            bool any = false;
            for(auto& c : cs)
            {
                if(!c->ok()) continue;
                Bytes f;
                if(c->adu(f, 0.0005))
                {
                    any = true;
                    ++frames;
                    switch(m_kind)
                    {
                    case ANSWERS:
                    {
                        auto d = ref::decode_request(Bytes(f.begin() + 7, f.end()));
                        auto p = d.kind == ref::Decode::CALL ? ref::encode_response(d.req.fc, plan_of(f[6], d.req)) : ref::exception_pdu(f[7], 1);
                        c->write(ref::adu((uint16_t)ref::get16(f, 0), f[6], p));
                        break;
                    }
                    case SILENT: break;
                    case CLOSES:
                        if(m_rng.chance(1, 2)) c->reset_close();
                        else c->close();
                        ++ended;
                        break;
                    case GARBAGE:
                    {
                        Bytes b(1 + m_rng.below(400));
                        for(auto& x : b) x = m_rng.chance(1, 3) ? 0 : m_rng.u8();
                        c->write(b);
                        break;
                    }
                    }
                }
                else if(c->ended())
                {
                    c->close();
                    ++ended;
                    ++ended_by_client;
                }
            }
            if(!any) std::this_thread::sleep_for(std::chrono::microseconds(200));
        }
    }
    Rsp plan_of(uint8_t unit, const Req& q) { return ref::device_response(unit, q, 5); }
    PeerKind m_kind;
    Rng m_rng;
    net::Listener m_l;
    std::mutex m_accepting;
    std::atomic<bool> m_stop{false};
    std::thread m_t;
};

Req poll_request(Rng& r)
{
    Req q = ref::random_request(r);
    q.fc = (uint8_t)(1 + r.below(4));
    q.values.clear();
    q.qty = (uint16_t)(1 + r.below(100));
    return q;
}

// One history: build up activity, then destroy the manager at a random moment.
void lifecycle(bool api_threads)
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    if(api_threads) leaks_expected = true; // calls which come after the end stay queued
    long rounds = ctx().cases(api_threads ? 160 : 240, api_threads ? 800 : 1200);
    // what is created once per process
    {
        auto m = modbus::IModbusManager::create(lib::null_logger(), 1);
        m->create_client_tcp_channel("x", modbus::Ipv4Endpoint{net::own_host(), 1});
    }
    for(long round = 0; round < rounds; ++round)
    {
        const size_t fds = net::open_fds();
        std::ostringstream log;
        auto life = std::make_shared<Life>();
        {
            set_faults(r);
            net::faults().resolve_delay = r.chance(1, 4) ? 20000 : 0;
            const unsigned threads = 1 + (unsigned)r.below(4);
            auto mgr = modbus::IModbusManager::create(r.chance(1, 2) ? lib::counting_logger() : lib::null_logger(), threads);
            log << threads << " threads;";
            // raw servers
            std::vector<std::unique_ptr<RawServer>> raws;
            std::vector<uint16_t> raw_ports;
            std::unique_ptr<BlackHole> hole;
            auto add_raw = [&] {
                auto p = net::next_port();
                auto k = (PeerKind)r.below(4);
                raws.emplace_back(new RawServer(p, k, r.next()));
                raw_ports.push_back(p);
                log << " raw" << (int)k;
                return p;
            };
            // the library's servers
            struct Srv
            {
                std::shared_ptr<modbus::IServerChannel> ch;
                std::vector<std::shared_ptr<LifeSession>> sessions;
                uint16_t port;
                bool started, keep;
            };
            std::vector<Srv> srvs;
            std::vector<net::Sock> peers; // of the library's servers
            int ns = (int)r.below(3);
            for(int i = 0; i < ns; ++i)
            {
                Srv s;
                s.port = net::next_port();
                s.ch = mgr->create_server_tcp_channel("s" + std::to_string(i), modbus::Ipv4Endpoint{net::own_host(), s.port}, 1 + (unsigned)r.below(4));
                s.started = r.chance(5, 6);
                s.keep = r.chance(1, 2);
                for(int u = 1; u <= 3; ++u)
                {
                    auto x = std::make_shared<LifeSession>((uint8_t)u, [](uint8_t unit, const Req& q) { return ref::device_response(unit, q, 5); }, life);
                    s.sessions.push_back(x);
                    s.ch->add_session(modbus::UnitIdentifier{(uint8_t)u}, x);
                    // it may serve other units, too, and be added again
                    if(r.chance(1, 3)) for(int n = 1 + (int)r.below(3); n > 0; --n) { s.ch->add_session(modbus::UnitIdentifier{(uint8_t)(10 * n + u)}, x); count("sessions_of_more_units"); }
                    if(r.chance(1, 6)) s.ch->add_session(modbus::UnitIdentifier{(uint8_t)u}, x);
                }
                if(s.started) s.ch->start();
                log << " srv" << (s.started ? "" : "(not started)");
                // peers of it: idle, half a frame, pipelining without reading, garbage, closed
                int np = s.started ? (int)r.below(4) : 0;
                for(int k = 0; k < np; ++k)
                {
                    auto c = net::connect_to(net::own_host(), s.port, r.chance(1, 2) ? 2048 : 0, 50);
                    if(!c.ok()) continue;
                    int how = (int)r.below(5);
                    log << " peer" << how;
                    auto q = ref::random_request(r);
                    auto f = ref::adu(7, (uint8_t)(1 + r.below(3)), ref::encode_request(q));
                    if(how == 1) c.write(f.data(), f.size() / 2);
                    if(how == 2)
                        for(int z = 0; z < 40; ++z) c.write(f);
                    if(how == 3) c.write(Bytes(50, 0xFF));
                    if(how == 4) c.half_close();
                    peers.push_back(std::move(c));
                }
                srvs.push_back(std::move(s));
            }
            // client channels
            struct Chan
            {
                std::shared_ptr<modbus::IClientChannel> ch;
                std::vector<std::shared_ptr<modbus::IClientSession>> sess;
            };
            std::vector<Chan> chans;
            std::vector<std::shared_ptr<modbus::IScheduledRequest>> polls;
            std::vector<std::unique_ptr<modbus::ITimer>> timers;
            int nc = 1 + (int)r.below(3);
            for(int i = 0; i < nc; ++i)
            {
                uint16_t port;
                std::string host = net::own_host(), adapter;
                int to = (int)r.below(8);
                if(to < 4) port = add_raw();
                else if(to == 4 && !srvs.empty()) port = srvs[0].port;
                else if(to == 5)
                {
                    if(!hole) hole.reset(new BlackHole(net::next_port()));
                    port = hole->port;
                    log << " hole";
                }
                else if(to == 6) { port = 9; host = r.chance(1, 2) ? "no.such.host.invalid" : net::own_host(); log << " unreachable"; }
                else port = net::next_port(); // refused
                if(r.chance(1, 6)) adapter = "127.0.0.1";
                Chan c;
                c.ch = mgr->create_client_tcp_channel("c" + std::to_string(i), modbus::Ipv4Endpoint{host, port}, adapter);
                for(int u = 1; u <= 1 + (int)r.below(3); ++u) c.sess.push_back(c.ch->create_session(modbus::UnitIdentifier{(uint8_t)u}, r.chance(1, 2) ? modbus::duration_t(LONG) : modbus::duration_t(milliseconds(1 + r.below(20)))));
                int nr = (int)r.below(12);
                log << " cli(" << nr << " requests";
                for(int k = 0; k < nr; ++k)
                {
                    auto s = c.sess[r.below(c.sess.size())].get();
                    bool again = r.chance(1, 3);
                    auto q = ref::random_request(r, r.chance(9, 10));
                    lib::send(*s, q, modbus::duration_t(-1), [life, s, q, again](const Rsp&) {
                        life->touch("a request's handler ran");
                        if(again) lib::send(*s, q, modbus::duration_t(milliseconds(5)), [life](const Rsp&) { life->touch("a request's handler ran"); });
                    });
                }
                int np = (int)r.below(3);
                for(int k = 0; k < np; ++k)
                {
                    auto p = lib::schedule(*c.sess[r.below(c.sess.size())], poll_request(r), modbus::duration_t(milliseconds(1 + r.below(30))), modbus::duration_t(std::chrono::microseconds(r.below(4000))), [life](const Rsp&) { life->touch("a poll's handler ran"); });
                    if(r.chance(1, 2)) polls.push_back(p);
                }
                int nt = (int)r.below(3);
                for(int k = 0; k < nt; ++k)
                {
                    auto t = c.sess[0]->start(modbus::duration_t(std::chrono::microseconds(r.below(20000))), [life] { life->touch("a timer's action ran"); });
                    if(r.chance(1, 2)) timers.push_back(std::move(t));
                }
                log << ", " << np << " polls, " << nt << " timers" << (adapter.empty() ? "" : ", adapter") << ")";
                if(r.chance(1, 3)) { c.ch.reset(); if(r.chance(1, 2) && !api_threads) c.sess.clear(); }
                chans.push_back(std::move(c));
            }
            if(api_threads) for(auto& p : polls) p->start();
            // application threads
            std::atomic<bool> stop{false};
            std::vector<std::thread> ts;
            if(api_threads)
            {
                int na = 1 + (int)r.below(3);
                for(int a = 0; a < na; ++a)
                {
                    uint64_t seed = r.next();
                    ts.emplace_back([&, seed, life] {
                        Rng g(seed);
                        while(!stop)
                        {
                            auto& c = chans[g.below(chans.size())];
                            auto s = c.sess[g.below(c.sess.size())].get();
                            switch(g.below(7))
                            {
                            case 0: case 1: case 2: lib::send(*s, ref::random_request(g, g.chance(9, 10)), modbus::duration_t(milliseconds(1 + g.below(30))), [life](const Rsp&) { life->touch("a request's handler ran"); }); break;
                            case 3: if(!polls.empty()) { auto& p = polls[g.below(polls.size())]; if(g.chance(1, 2)) p->start(); else p->stop(); } break;
                            case 4: if(!polls.empty()) { auto& p = polls[g.below(polls.size())]; p->set_frequency(std::chrono::microseconds(g.below(3000))); p->is_running(); p->get_frequency(); } break;
                            case 5: if(c.ch) c.ch->create_session(modbus::UnitIdentifier{g.u8()}, milliseconds(5)); break;
                            case 6: if(c.ch && g.chance(1, 30)) c.ch->shutdown(); break;
                            }
                            if(g.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(200)));
                        }
                    });
                }
            }
            // the moment
            int when = (int)r.below(4);
            if(when == 1) std::this_thread::sleep_for(std::chrono::microseconds(r.below(500)));
            if(when == 2) std::this_thread::sleep_for(std::chrono::microseconds(r.below(5000)));
            if(when == 3) std::this_thread::sleep_for(std::chrono::microseconds(r.below(30000)));
            // some channels end on their own first
            if(r.chance(1, 4) && chans[0].ch) { chans[0].ch->shutdown(); log << " channel-shutdown"; }
            if(r.chance(1, 4) && !srvs.empty()) { srvs[0].ch->shutdown(); log << " server-shutdown"; }
            if(r.chance(1, 6)) { mgr->shutdown(); log << " manager-shutdown"; if(r.chance(1, 2)) mgr->shutdown(); }
            if(round < 2) sample(log.str());
            must_return("end-destructor-hangs", "the destructor of the manager did not return: " + log.str(), [&] { mgr.reset(); });
            life->dead = true;
            stop = true;
            for(auto& t : ts) t.join();
            count("managers_destroyed");
            distinct(fnv(log.str()));
            // started servers listen no more, and their connections are closed
            for(auto& s : srvs)
            {
                if(!s.started) continue;
                auto c = net::connect_to(net::own_host(), s.port);
                if(c.ok()) violation("end-still-listening", "a started server accepts connections after its manager was destroyed: " + log.str());
                for(auto& x : s.sessions) if(x->shutdowns != 1) violation("end-session-shutdown", "a server session was shut down " + std::to_string(x->shutdowns) + " times: " + log.str());
                count("server_sessions_ended", s.sessions.size());
            }
            for(auto& p : peers)
                if(!p.wait_gone()) { violation("end-connection-open", "a connection to a server is open after its manager was destroyed: " + log.str(), true); break; }
            count("peer_connections_ended", peers.size());
            for(auto& x : raws)
            {
                if(!eventually([&] { return x->all_ended(); })) violation("end-connection-open", "a client's connection is open after its manager was destroyed: " + log.str(), true);
                count("client_connections_ended", x->ended_by_client);
            }
            // calls which are harmless now, and handles which outlive the manager
            if(!api_threads && r.chance(1, 2))
                for(auto& p : polls) { p->is_running(); p->get_frequency(); }
            for(auto& t : timers) { t->cancel(); t->expires_at(); }
            if(r.chance(1, 2)) std::this_thread::sleep_for(milliseconds(1));
            for(auto& x : raws) x->stop();
            if(r.chance(1, 2)) { chans.clear(); polls.clear(); timers.clear(); }
            else { timers.clear(); polls.clear(); chans.clear(); }
        }
        count("callbacks", life->callbacks);
        count("histories");
        if(!api_threads && net::open_fds() != fds) violation("end-descriptors", std::to_string(net::open_fds()) + " descriptors are open, " + std::to_string(fds) + " were before: " + log.str());
        clear_faults();
        if(ctx().violations > 10) break;
    }
    note_faults();
}
void sc_lifecycle() { lifecycle(false); }
void sc_lifecycle_api() { lifecycle(true); }

// One manager with much of everything: servers with a session for every unit, many client channels, sessions,
// polls and timers, deep queues at both ends; used, and then destroyed.
void sc_large()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    {
        auto m = modbus::IModbusManager::create(lib::null_logger(), 1);
        m->create_client_tcp_channel("x", modbus::Ipv4Endpoint{net::own_host(), 1});
    }
    for(long round = 0; round < ctx().cases(2, 12); ++round)
    {
        const size_t fds = net::open_fds();
        const int S = 3, C = 60;
        auto life = std::make_shared<Life>();
        {
            const unsigned threads = 1 + (unsigned)r.below(6);
            auto mgr = modbus::IModbusManager::create(r.chance(1, 2) ? lib::counting_logger() : lib::null_logger(), threads);
            const std::string what = "a large manager (" + std::to_string(threads) + " threads)";
            std::vector<std::shared_ptr<modbus::IServerChannel>> srv;
            std::vector<std::vector<std::shared_ptr<LifeSession>>> sessions((size_t)S);
            std::vector<uint16_t> ports;
            for(int i = 0; i < S; ++i)
            {
                ports.push_back(net::next_port());
                srv.push_back(mgr->create_server_tcp_channel("s" + std::to_string(i), modbus::Ipv4Endpoint{net::own_host(), ports.back()}, 100));
                for(int u = 0; u < 256; ++u)
                {
                    auto x = std::make_shared<LifeSession>((uint8_t)u, [i](uint8_t unit, const Req& q) { return ref::device_response(unit, q, (uint64_t)i + 100); }, life);
                    sessions[(size_t)i].push_back(x);
                    srv.back()->add_session(modbus::UnitIdentifier{(uint8_t)u}, x);
                }
                srv.back()->start();
            }
            const uint16_t silent_port = net::next_port();
            RawServer silent(silent_port, SILENT, r.next());
            std::atomic<uint64_t> completed{0}, poll_runs{0}, timer_runs{0}, never{0};
            uint64_t requests = 0, polls = 0, timers = 0;
            std::vector<std::unique_ptr<std::atomic<int>>> calls;
            std::vector<std::shared_ptr<modbus::IClientChannel>> chans;
            std::vector<std::shared_ptr<modbus::IClientSession>> cs;
            std::vector<std::shared_ptr<modbus::IScheduledRequest>> ps;
            std::vector<std::unique_ptr<modbus::ITimer>> ts;
            std::map<std::pair<int, int>, std::map<uint64_t, int>> due; // by server and unit: requests, unordered
            auto key = [](const Req& q) { auto b = ref::encode_request(q); return fnv(b.data(), b.size()); };
            for(int i = 0; i < C; ++i)
            {
                const int to = i % (S + 1); // the last kind: silent
                auto ch = mgr->create_client_tcp_channel("c" + std::to_string(i), modbus::Ipv4Endpoint{net::own_host(), to < S ? ports[(size_t)to] : silent_port}, "");
                chans.push_back(ch);
                const int n = to < S ? 16 : 4;
                for(int j = 0; j < n; ++j)
                {
                    const uint8_t u = (uint8_t)(i * 16 + j + (int)r.below(2) * 128);
                    auto s = ch->create_session(modbus::UnitIdentifier{u}, LONG);
                    cs.push_back(s);
                    for(int k = 0; k < 4; ++k)
                    {
                        auto q = ref::random_request(r);
                        if(to == S)
                        {
                            lib::send(*s, q, modbus::duration_t(-1), [&, life](const Rsp&) { life->touch("a request's handler ran"); ++never; });
                            continue;
                        }
                        ++requests;
                        ++due[{to, u}][key(q)];
                        calls.emplace_back(new std::atomic<int>(0));
                        auto* n_calls = calls.back().get();
                        lib::send(*s, q, modbus::duration_t(-1), [&, life, n_calls, q, u, to, what](const Rsp& o) {
                            life->touch("a request's handler ran");
                            if((*n_calls)++) violation("e2e-handler-twice", what + ": " + q.str());
                            auto want = ref::device_response(u, q, (uint64_t)to + 100);
                            if(o != want) violation("e2e-outcome", what + ": unit " + std::to_string(u) + " " + q.str() + " gave " + o.str() + ", expected " + want.str());
                            ++completed;
                        });
                    }
                    if(to < S)
                    {
                        auto q = poll_request(r);
                        ++due[{to, u}][key(q)];
                        ++polls;
                        ps.push_back(lib::schedule(*s, q, modbus::duration_t(-1), std::chrono::hours(1), [&, life](const Rsp&) { life->touch("a poll's handler ran"); ++poll_runs; }));
                        ++timers;
                        ts.push_back(s->start(modbus::duration_t(std::chrono::microseconds(r.below(20000))), [&, life] { life->touch("a timer's action ran"); ++timer_runs; }));
                    }
                }
            }
            auto all = [&](const char* k, std::atomic<uint64_t>& n, uint64_t want, const char* name) {
                for(uint64_t before = ~0ull; before != n && n < want;)
                {
                    before = n;
                    eventually([&] { return n >= want; });
                }
                if(n != want) violation(k, what + ": " + std::to_string(n) + " of " + std::to_string(want) + " " + name, n < want);
            };
            all("e2e-never-completed", completed, requests, "requests completed");
            all("e2e-never-completed", poll_runs, polls, "first polls completed");
            all("e2e-timer", timer_runs, timers, "timers ran");
            for(int i = 0; i < S; ++i)
                for(int u = 0; u < 256; ++u)
                {
                    std::map<uint64_t, int> got;
                    for(auto& q : sessions[(size_t)i][(size_t)u]->take_calls()) ++got[key(q)];
                    if(got != due[{i, u}]) { violation("e2e-session-calls", what + ": the session of unit " + std::to_string(u) + " of server " + std::to_string(i) + " was called for other requests than were sent to it"); break; }
                }
            count("requests", requests);
            count("polls", polls);
            count("timers", timers);
            count("client_sessions", cs.size());
            // deep queues
            for(int i = 0; i < 6000; ++i) lib::send(*cs[(size_t)(S * 16)], poll_request(r), modbus::duration_t(-1), [&, life](const Rsp&) { life->touch("a request's handler ran"); ++never; });
            auto peer = net::connect_to(net::own_host(), ports[0], 4096, 50);
            {
                Bytes stream;
                Req q;
                q.fc = 3;
                q.qty = 125;
                auto f = ref::adu(7, 200, ref::encode_request(q));
                for(int i = 0; i < 3000; ++i) stream.insert(stream.end(), f.begin(), f.end());
                ::fcntl(peer.fd, F_SETFL, O_NONBLOCK);
                peer.write(stream); // as much as the buffers take
            }
            std::this_thread::sleep_for(std::chrono::microseconds(r.below(30000)));
            if(never) violation("e2e-outcome", what + ": requests to a silent peer completed");
            if(r.chance(1, 2)) { chans.clear(); srv.clear(); }
            must_return("end-destructor-hangs", what + ": the destructor of the manager did not return", [&] { mgr.reset(); });
            life->dead = true;
            count("managers_destroyed");
            for(auto& v : sessions)
                for(auto& x : v)
                    if(x->shutdowns != 1) { violation("end-session-shutdown", what + ": a server session was shut down " + std::to_string(x->shutdowns) + " times"); break; }
            count("server_sessions_ended", (uint64_t)S * 256);
            for(auto p : ports) if(net::connect_to(net::own_host(), p).ok()) violation("end-still-listening", what);
            ::fcntl(peer.fd, F_SETFL, 0);
            if(!peer.wait_gone()) violation("end-connection-open", what + ": a connection to a server stayed open", true);
            if(!eventually([&] { return silent.all_ended(); })) violation("end-connection-open", what + ": a client's connection stayed open", true);
            if(never) violation("end-late-callback", what);
            silent.stop();
            distinct(r.next());
        }
        count("callbacks", life->callbacks);
        count("histories");
        if(net::open_fds() != fds) violation("end-descriptors", "after a large manager " + std::to_string(net::open_fds()) + " descriptors are open, " + std::to_string(fds) + " were before");
        if(ctx().violations > 6) break;
    }
    sample("3 servers with 256 sessions each, 60 client channels with 780 sessions, 2900 requests, 720 polls and timers, 6000 requests queued at the end");
}

// Everything that was posted on the session's strand before this returns has run.
bool barrier(modbus::IClientSession& s)
{
    for(int i = 0; i < 3; ++i)
    {
        auto g = std::make_shared<Gate>();
        s.start(modbus::duration_t(0), [g] { g->arrive(); });
        if(!g->wait(1, WATCHDOG_S)) return false;
    }
    return true;
}

// ---- one client channel ends while others go on ----
void sc_client_end()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long rounds = ctx().cases(200, 500);
    for(long round = 0; round < rounds; ++round)
    {
        std::ostringstream log;
        set_faults(r);
        auto mgr = modbus::IModbusManager::create(lib::counting_logger(), 1 + (unsigned)r.below(3));
        uint16_t port = net::next_port(), other_port = net::next_port();
        PeerKind kind = r.chance(1, 2) ? ANSWERS : SILENT;
        RawServer raw(port, kind, r.next()), other(other_port, ANSWERS, r.next());
        auto ch = mgr->create_client_tcp_channel("ends", modbus::Ipv4Endpoint{net::own_host(), port}, "", modbus::LoggingLevel::Trace);
        auto och = mgr->create_client_tcp_channel("goes on", modbus::Ipv4Endpoint{net::own_host(), other_port}, "", modbus::LoggingLevel::Trace);
        auto s = ch->create_session(modbus::UnitIdentifier{1}, LONG), os = och->create_session(modbus::UnitIdentifier{1}, LONG);
        std::atomic<uint64_t> handled{0}, polled{0}, opolled{0};
        int nr = (int)r.below(8), np = (int)r.below(4);
        for(int i = 0; i < nr; ++i) lib::send(*s, ref::random_request(r), modbus::duration_t(r.chance(1, 2) ? modbus::duration_t(LONG) : modbus::duration_t(milliseconds(r.below(10)))), [&](const Rsp&) { ++handled; });
        std::vector<std::shared_ptr<modbus::IScheduledRequest>> polls;
        for(int i = 0; i < np; ++i)
        {
            polls.push_back(lib::schedule(*s, poll_request(r), milliseconds(3), std::chrono::microseconds(r.below(3000)), [&](const Rsp&) { ++polled; }));
            if(r.chance(1, 2)) ch->create_session(modbus::UnitIdentifier{2}, LONG);
        }
        auto opoll = lib::schedule(*os, poll_request(r), milliseconds(5000), std::chrono::microseconds(500), [&](const Rsp&) { ++opolled; });
        log << (kind == ANSWERS ? "answering" : "silent") << " peer, " << nr << " requests, " << np << " polls";
        if(r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(8000)));
        // end it, perhaps several times and from several threads
        int times = r.chance(1, 2) ? 1 : 2 + (int)r.below(3);
        bool threads = r.chance(1, 3);
        bool session_only = r.chance(1, 4);
        log << ", " << times << (session_only ? " session" : " channel") << " shutdowns" << (threads ? " from threads" : "");
        {
            std::vector<std::thread> ts;
            for(int i = 0; i < times; ++i)
            {
                auto f = [&] { if(session_only) s->shutdown(); else ch->shutdown(); };
                if(threads) ts.emplace_back(f);
                else f();
            }
            for(auto& t : ts) t.join();
        }
        if(!barrier(*s)) { violation("end-timer", "a session timer does not run after the shutdown: " + log.str(), true); return; }
        if(session_only)
        {
            // its polls stop: at most one more outcome each
            uint64_t p0 = polled;
            std::this_thread::sleep_for(milliseconds(12));
            for(auto& p : polls) if(p->is_running()) violation("end-poll-running", "a scheduled request runs after its session's shutdown: " + log.str());
            if(polled > p0 + (uint64_t)np) violation("end-polls-go-on", std::to_string(polled - p0) + " polls came after the shutdown of their session: " + log.str());
            s->shutdown();
            ch->shutdown();
            if(!barrier(*s)) { violation("end-timer", "a session timer does not run after the shutdown: " + log.str(), true); return; }
        }
        const uint64_t h0 = handled, p0 = polled;
        const uint64_t o0 = opolled;
        // use after the end: nothing comes of it, and nothing breaks
        bool started_again = false;
        if(r.chance(1, 2))
        {
            for(int i = 0; i < 5; ++i) lib::send(*s, ref::random_request(r), milliseconds(2), [&](const Rsp&) {});
            auto s2 = ch->create_session(modbus::UnitIdentifier{3}, LONG);
            if(s2) lib::send(*s2, ref::random_request(r), milliseconds(2), [&](const Rsp&) {});
            for(auto& p : polls) p->stop();
            for(auto& p : polls) p->set_frequency(milliseconds(1));
            if(r.chance(1, 2)) for(auto& p : polls) { p->start(); started_again = true; }
            s->shutdown();
            ch->shutdown();
            if(r.chance(1, 2))
            {
                // (what holds a session and its polls together must not outlive the manager: LeakSanitizer)
                lib::schedule(*s, poll_request(r), milliseconds(2), milliseconds(1), [&](const Rsp&) { ++polled; });
                if(s2) lib::schedule(*s2, poll_request(r), milliseconds(2), milliseconds(1), [&](const Rsp&) { ++polled; });
            }
            log << ", used again";
        }
        if(!eventually([&] { return raw.all_ended(); })) violation("end-connection-open", "the connection is open after the channel's shutdown: " + log.str(), true);
        const uint64_t f0 = raw.frames, a0 = raw.accepted;
        std::this_thread::sleep_for(milliseconds(10));
        if(handled != h0) violation("end-late-callback", "a request's handler ran after the channel's shutdown: " + log.str());
        if(polled != p0) violation("end-late-callback", "a poll's handler ran after the channel's shutdown: " + log.str());
        if(raw.frames != f0 || raw.accepted != a0) violation("end-late-frame", "a frame or a connection was made after the channel's shutdown: " + log.str());
        if(!started_again) for(auto& p : polls) if(p->is_running()) violation("end-poll-running", "a scheduled request runs after the channel's shutdown: " + log.str());
        // the other channel was not disturbed
        if(!eventually([&] { return opolled > o0; })) violation("end-disturbs", "the other channel stopped polling: " + log.str(), true);
        // a new channel to the same endpoint works
        auto nch = mgr->create_client_tcp_channel("new", modbus::Ipv4Endpoint{net::own_host(), other_port});
        auto nsess = nch->create_session(modbus::UnitIdentifier{4}, LONG);
        Gate g;
        lib::send(*nsess, poll_request(r), modbus::duration_t(-1), [&](const Rsp&) { g.arrive(); });
        if(!g.wait(1, WATCHDOG_S)) violation("end-disturbs", "a new channel does not work after the shutdown of another: " + log.str(), true);
        opoll->stop();
        must_return("end-destructor-hangs", "the destructor of the manager did not return: " + log.str(), [&] { mgr.reset(); });
        count("channels_ended");
        count("histories");
        count("frames_before_the_end", f0);
        distinct(fnv(log.str()) ^ r.next());
        if(round == 0) sample(log.str());
        clear_faults();
        if(ctx().violations > 10) break;
    }
    note_faults();
}

// ---- one server channel ends while another goes on ----
void sc_server_end()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long rounds = ctx().cases(400, 600);
    for(long round = 0; round < rounds; ++round)
    {
        std::ostringstream log;
        set_faults(r);
        auto life = std::make_shared<Life>();
        auto mgr = modbus::IModbusManager::create(lib::counting_logger(), 1 + (unsigned)r.below(3));
        uint16_t port = net::next_port(), other_port = net::next_port();
        auto planner = [](uint8_t unit, const Req& q) { return ref::device_response(unit, q, 5); };
        auto ch = mgr->create_server_tcp_channel("ends", modbus::Ipv4Endpoint{net::own_host(), port}, 8, modbus::LoggingLevel::Trace);
        auto och = mgr->create_server_tcp_channel("goes on", modbus::Ipv4Endpoint{net::own_host(), other_port}, 8, modbus::LoggingLevel::Trace);
        std::vector<std::shared_ptr<LifeSession>> ss;
        for(int u = 1; u <= 1 + (int)r.below(3); ++u)
        {
            ss.push_back(std::make_shared<LifeSession>((uint8_t)u, planner, life));
            ch->add_session(modbus::UnitIdentifier{(uint8_t)u}, ss.back());
            if(r.chance(1, 3)) for(int n = 1 + (int)r.below(3); n > 0; --n) { ch->add_session(modbus::UnitIdentifier{(uint8_t)(10 * n + u)}, ss.back()); count("sessions_of_more_units"); }
        }
        auto os = std::make_shared<LifeSession>((uint8_t)1, planner, life);
        och->add_session(modbus::UnitIdentifier{1}, os);
        ch->start();
        och->start();
        auto oc = net::connect_to(net::own_host(), other_port, 0, 50);
        struct Peer
        {
            net::Sock c;
            std::vector<Bytes> want;
        };
        std::vector<Peer> ps;
        int np = (int)r.below(4);
        log << np << " peers:";
        for(int i = 0; i < np; ++i)
        {
            Peer p;
            p.c = net::connect_to(net::own_host(), port, r.chance(1, 2) ? 2048 : 0, 50);
            if(!p.c.ok()) continue;
            int n = r.chance(1, 3) ? 0 : 1 + (int)r.below(60);
            log << " " << n;
            Bytes stream;
            for(int k = 0; k < n; ++k)
            {
                auto q = ref::random_request(r);
                uint8_t u = (uint8_t)(1 + r.below(ss.size()));
                auto f = ref::adu((uint16_t)k, u, ref::encode_request(q));
                stream.insert(stream.end(), f.begin(), f.end());
                p.want.push_back(ref::adu((uint16_t)k, u, ref::encode_response(q.fc, planner(u, q))));
            }
            if(r.chance(1, 3)) stream.resize(stream.size() - std::min<size_t>(stream.size(), r.below(12)));
            p.c.write(stream);
            ps.push_back(std::move(p));
        }
        if(r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(4000)));
        int times = r.chance(1, 2) ? 1 : 2 + (int)r.below(3);
        bool threads = r.chance(1, 3);
        log << ", " << times << " shutdowns" << (threads ? " from threads" : "");
        {
            std::vector<std::thread> ts;
            for(int i = 0; i < times; ++i)
            {
                if(threads) ts.emplace_back([&] { ch->shutdown(); });
                else ch->shutdown();
            }
            for(auto& t : ts) t.join();
        }
        if(r.chance(1, 3))
        {
            // a peer that connects at that very moment
            auto c = net::connect_to(net::own_host(), port);
            if(c.ok()) ps.push_back({std::move(c), {}});
            log << ", late peer";
        }
        for(auto& s : ss)
            if(!eventually([&] { return s->shutdowns > 0; })) { violation("end-session-shutdown", "a session was not shut down with its channel: " + log.str(), true); break; }
        // the streams end, after nothing but correct replies
        for(auto& p : ps)
        {
            size_t k = 0;
            Bytes got;
            bool bad = false;
            bool gone = p.c.wait_gone();
            while(p.c.adu(got, 0))
            {
                if(k >= p.want.size() || got != p.want[k]) { violation("end-wrong-reply", "reply " + std::to_string(k) + " was " + hex(got) + ": " + log.str()); bad = true; break; }
                ++k;
            }
            count("replies_before_the_end", k);
            if(!bad && !gone) { violation("end-connection-open", "a connection is open after the channel's shutdown: " + log.str(), true); break; }
        }
        if(!eventually([&] { return !net::connect_to(net::own_host(), port).ok(); })) violation("end-still-listening", "the server accepts connections after its channel's shutdown: " + log.str(), true);
        if(r.chance(1, 2))
        {
            // used again: nothing comes of it
            auto x = std::make_shared<LifeSession>((uint8_t)9, planner, life);
            ch->add_session(modbus::UnitIdentifier{9}, x);
            ch->start();
            ch->shutdown();
            std::this_thread::sleep_for(milliseconds(3));
            if(net::connect_to(net::own_host(), port).ok()) violation("end-still-listening", "the server listens again after its channel's shutdown: " + log.str());
            log << ", used again";
        }
        for(auto& s : ss) if(s->shutdowns != 1) violation("end-session-shutdown", "a session was shut down " + std::to_string(s->shutdowns) + " times: " + log.str());
        // the other server was not disturbed
        auto q = ref::random_request(r);
        oc.write(ref::adu(77, 1, ref::encode_request(q)));
        Bytes got;
        if(!oc.adu(got)) violation("end-disturbs", "another server stopped answering: " + log.str(), true);
        else if(got != ref::adu(77, 1, ref::encode_response(q.fc, planner(1, q)))) violation("end-disturbs", "another server answered " + hex(got) + ": " + log.str());
        // the port can be used again
        auto nch = mgr->create_server_tcp_channel("new", modbus::Ipv4Endpoint{net::own_host(), port});
        nch->add_session(modbus::UnitIdentifier{1}, std::make_shared<LifeSession>((uint8_t)1, planner, life));
        nch->start();
        auto nc = net::connect_to(net::own_host(), port, 0, 50);
        nc.write(ref::adu(78, 1, ref::encode_request(q)));
        if(!nc.adu(got) || got != ref::adu(78, 1, ref::encode_response(q.fc, planner(1, q)))) violation("end-disturbs", "a new server at the same port does not answer: " + log.str(), true);
        must_return("end-destructor-hangs", "the destructor of the manager did not return: " + log.str(), [&] { mgr.reset(); });
        life->dead = true;
        count("channels_ended");
        count("histories");
        distinct(fnv(log.str()) ^ r.next());
        if(round == 0) sample(log.str());
        clear_faults();
        if(ctx().violations > 10) break;
    }
    note_faults();
}

// ---- every public operation from several threads at once ----
void sc_stress()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    long rounds = ctx().cases(25, 100);
    for(long round = 0; round < rounds; ++round)
    {
        set_faults(r);
        auto mgr = std::shared_ptr<modbus::IModbusManager>(modbus::IModbusManager::create(lib::counting_logger(), 2 + (unsigned)r.below(3)));
        auto db = std::make_shared<modbus::InMemoryDatabase>();
        for(int i = 0; i < 300; ++i) { db->add_coil((uint16_t)i, i & 1); db->add_discrete_input((uint16_t)i, i & 1); db->add_holding_register((uint16_t)i, (uint16_t)i); db->add_input_register((uint16_t)i, (uint16_t)i); }
        struct Srv
        {
            std::shared_ptr<modbus::IServerChannel> ch;
            uint16_t port;
            std::atomic<bool> busy{false};
        };
        std::vector<std::unique_ptr<Srv>> srvs;
        for(int i = 0; i < 2; ++i)
        {
            srvs.emplace_back(new Srv);
            auto& s = *srvs.back();
            s.port = net::next_port();
            s.ch = mgr->create_server_tcp_channel("srv" + std::to_string(i), modbus::Ipv4Endpoint{net::own_host(), s.port}, 20, modbus::LoggingLevel::Trace);
            for(int u = 1; u <= 4; ++u)
            {
                auto x = std::make_shared<lib::RecSession>((uint8_t)u, [](uint8_t unit, const Req& q) { return plan(unit, q, 9); });
                x->busy = &s.busy;
                s.ch->add_session(modbus::UnitIdentifier{(uint8_t)u}, x);
            }
            s.ch->add_session(modbus::UnitIdentifier{100}, db);
            s.ch->start();
        }
        struct Chan
        {
            std::shared_ptr<modbus::IClientChannel> ch;
            std::atomic<int> inside{0};
        };
        std::mutex m;
        std::vector<std::shared_ptr<Chan>> chans;
        struct In
        {
            std::atomic<int>& n;
            explicit In(std::atomic<int>& x) : n(x)
            {
                if(n.fetch_add(1)) violation("client-callback-overlap", "two callbacks of one client channel ran at the same time");
            }
            ~In() { --n; }
        };
        auto new_chan = [&](Rng& g) {
            auto c = std::make_shared<Chan>();
            c->ch = mgr->create_client_tcp_channel("cli", modbus::Ipv4Endpoint{net::own_host(), srvs[g.below(2)]->port}, "", modbus::LoggingLevel::Trace);
            std::lock_guard<std::mutex> l(m);
            chans.push_back(c);
            return c;
        };
        for(int i = 0; i < 3; ++i) new_chan(r);
        std::atomic<uint64_t> submitted{0}, completed{0};
        const int T = 3 + (int)r.below(2), M = 120;
        // what all threads use at the same time, with nothing between them that would order what they do
        std::vector<std::pair<std::shared_ptr<Chan>, std::shared_ptr<modbus::IClientSession>>> common;
        std::vector<std::shared_ptr<modbus::IScheduledRequest>> common_polls;
        std::vector<std::shared_ptr<modbus::IServerChannel>> shorts;
        for(int i = 0; i < 2; ++i)
        {
            auto c = chans[(size_t)i];
            common.push_back({c, c->ch->create_session(modbus::UnitIdentifier{(uint8_t)(1 + i)}, milliseconds(2000))});
            common_polls.push_back(lib::schedule(*common.back().second, poll_request(r), milliseconds(1500), std::chrono::microseconds(500 + r.below(3000)), [&, c](const Rsp&) { In in(c->inside); count("polls"); }));
            shorts.push_back(mgr->create_server_tcp_channel("short", modbus::Ipv4Endpoint{net::own_host(), net::next_port()}));
        }
        auto ends = chans[2]->ch->create_session(modbus::UnitIdentifier{1}, milliseconds(2000));
        auto ends_poll = lib::schedule(*ends, poll_request(r), milliseconds(1500), std::chrono::microseconds(500), [&, c = chans[2]](const Rsp&) { In in(c->inside); count("polls"); });
        std::vector<std::thread> ts;
        for(int t = 0; t < T; ++t)
        {
            uint64_t seed = r.next();
            ts.emplace_back([&, seed, t] {
                Rng g(seed);
                std::vector<std::pair<std::shared_ptr<Chan>, std::shared_ptr<modbus::IClientSession>>> sess;
                std::vector<std::shared_ptr<modbus::IScheduledRequest>> polls;
                std::vector<std::unique_ptr<modbus::ITimer>> timers;
                for(int i = 0; i < M; ++i)
                {
                    count("operations");
                    std::shared_ptr<Chan> c;
                    {
                        std::lock_guard<std::mutex> l(m);
                        c = chans[g.below(chans.size())];
                    }
                    if(sess.empty() || g.chance(1, 10))
                    {
                        uint8_t u = g.chance(1, 4) ? 100 : (uint8_t)(1 + g.below(4));
                        sess.push_back({c, c->ch->create_session(modbus::UnitIdentifier{u}, milliseconds(2000))});
                    }
                    auto& p = g.chance(1, 2) ? common[g.below(common.size())] : sess[g.below(sess.size())];
                    auto ch = p.first;
                    auto s = p.second;
                    auto poll = [&]() -> std::shared_ptr<modbus::IScheduledRequest> {
                        if(polls.empty() || g.chance(1, 2)) return common_polls[g.below(common_polls.size())];
                        return polls[g.below(polls.size())];
                    };
                    if(t == 0 && i == 20) for(auto& x : shorts) x->start();
                    if(t == 1 && i == 20 + round % 7) for(auto& x : shorts) x->shutdown();
                    if(g.chance(1, 40)) ends->shutdown();
                    switch(g.below(10))
                    {
                    case 0: case 1: case 2: case 3:
                    {
                        ++submitted;
                        auto q = ref::random_request(g, g.chance(9, 10));
                        bool again = g.chance(1, 4);
                        lib::send(*s, q, modbus::duration_t(-1), [&, ch, s, q, again](const Rsp&) {
                            In in(ch->inside);
                            if(again)
                            {
                                ++submitted;
                                lib::send(*s, q, milliseconds(1500), [&, ch](const Rsp&) {
                                    In in2(ch->inside);
                                    ++completed;
                                });
                            }
                            ++completed;
                        });
                        break;
                    }
                    case 4:
                        if(polls.size() < 6)
                        {
                            auto w = std::make_shared<std::weak_ptr<modbus::IScheduledRequest>>();
                            polls.push_back(lib::schedule(*s, poll_request(g), milliseconds(1500), std::chrono::microseconds(200 + g.below(3000)), [&, ch](const Rsp&) { In in(ch->inside); count("polls"); }));
                        }
                        break;
                    case 5:
                        {
                            auto x = poll();
                            if(g.chance(1, 2)) x->start();
                            else x->stop();
                            x->is_running();
                        }
                        break;
                    case 6:
                        {
                            auto x = poll();
                            x->set_frequency(std::chrono::microseconds(300 + g.below(3000)));
                            x->get_frequency();
                        }
                        break;
                    case 7:
                    {
                        auto tm = s->start(std::chrono::microseconds(g.below(3000)), [&, ch] { In in(ch->inside); count("timer_runs"); });
                        if(g.chance(1, 3)) tm->cancel();
                        else if(g.chance(1, 2)) timers.push_back(std::move(tm));
                        if(!timers.empty() && g.chance(1, 2)) timers.back()->cancel();
                        break;
                    }
                    case 8:
                    {
                        if(g.chance(1, 3)) shorts[g.below(shorts.size())]->add_session(modbus::UnitIdentifier{1}, db);
                        auto& sv = *srvs[g.below(2)];
                        uint8_t u = (uint8_t)(1 + g.below(4));
                        auto x = std::make_shared<lib::RecSession>(u, [](uint8_t unit, const Req& q) { return plan(unit, q, 9); });
                        x->busy = &sv.busy;
                        sv.ch->add_session(modbus::UnitIdentifier{u}, x);
                        break;
                    }
                    case 9:
                        if(g.chance(1, 10)) new_chan(g);
                        else if(g.chance(1, 10))
                        {
                            // a server comes and goes
                            auto x = mgr->create_server_tcp_channel("short", modbus::Ipv4Endpoint{net::own_host(), net::next_port()});
                            x->start();
                            if(g.chance(1, 2)) x->shutdown();
                        }
                        else db->execute_transaction([&](modbus::IDatabase& d) { uint16_t v; d.get_holding_register(1, v); d.set_holding_register(1, (uint16_t)(v + 1)); });
                        break;
                    }
                    if(g.chance(1, 3)) std::this_thread::sleep_for(std::chrono::microseconds(g.below(300)));
                }
                for(auto& x : polls) x->stop();
            });
        }
        for(auto& t : ts) t.join();
        for(auto& x : common_polls) x->stop();
        if(!eventually([&] { return completed == submitted; })) violation("e2e-never-completed", std::to_string(submitted - completed) + " of " + std::to_string(submitted) + " requests never completed", true);
        count("requests", completed);
        must_return("end-destructor-hangs", "the destructor of the manager did not return", [&] { mgr.reset(); });
        distinct(r.next());
        count("histories");
        if(round == 0) sample(std::to_string(T) + " application threads, " + std::to_string(M) + " operations each");
        clear_faults();
        if(ctx().violations > 10) break;
    }
    note_faults();
}

// ---- two public operations on the same objects, by several threads at the same instant ----
void sc_burst()
{
    Rng r(ctx().seed);
    net::faults().rng = r.next();
    enum Op { SEND, SCHEDULE, END_SESSION, NEW_SESSION, POLL_START, POLL_STOP, FREQUENCY, TIMER, END_CLIENT, NEW_CLIENT, SERVER_START, SERVER_ADD, SERVER_END, NEW_SERVER, DATABASE, OPS };
    static const char* const names[OPS] = {"send", "schedule", "session shutdown", "new session", "poll start", "poll stop", "poll frequency", "timer", "client shutdown", "new client", "server start", "server add_session", "server shutdown", "new server", "transaction"};
    std::vector<std::pair<int, int>> todo;
    long rounds = ctx().cases(20, 100);
    for(long round = 0; round < rounds; ++round)
    {
        set_faults(r);
        auto mgr = std::shared_ptr<modbus::IModbusManager>(modbus::IModbusManager::create(lib::counting_logger(), 2 + (unsigned)r.below(3)));
        auto db = std::make_shared<modbus::InMemoryDatabase>();
        for(int i = 0; i < 40; ++i) { db->add_coil((uint16_t)i, i & 1); db->add_discrete_input((uint16_t)i, i & 1); db->add_holding_register((uint16_t)i, (uint16_t)i); db->add_input_register((uint16_t)i, (uint16_t)i); }
        std::atomic<bool> busy{false};
        uint16_t port = net::next_port();
        auto server = mgr->create_server_tcp_channel("srv", modbus::Ipv4Endpoint{net::own_host(), port}, 50, modbus::LoggingLevel::Trace);
        auto serves = std::make_shared<lib::RecSession>((uint8_t)1, [](uint8_t unit, const Req& q) { return plan(unit, q, 9); });
        serves->busy = &busy;
        server->add_session(modbus::UnitIdentifier{1}, serves);
        server->add_session(modbus::UnitIdentifier{100}, db);
        server->start();

        // What the threads do between them: `go` starts a burst, `done` counts those which have done their part.
        // Relaxed, so that nothing orders what one thread does before what another does in the same burst.
        struct Burst
        {
            std::shared_ptr<modbus::IClientChannel> client;
            std::shared_ptr<modbus::IClientSession> session;
            std::shared_ptr<modbus::IScheduledRequest> poll;
            std::shared_ptr<modbus::IServerChannel> server;
            std::atomic<int> inside{0};
            std::atomic<uint64_t> submitted{0}, completed{0};
            int ops[2];
            int times;
        };
        struct In
        {
            std::atomic<int>& n;
            explicit In(std::atomic<int>& x) : n(x)
            {
                if(n.fetch_add(1)) violation("client-callback-overlap", "two callbacks of one client channel ran at the same time");
            }
            ~In() { --n; }
        };
        const int T = 3 + (int)r.below(2);
        std::vector<std::shared_ptr<Burst>> bursts;
        std::shared_ptr<Burst> now;
        std::atomic<int> go{0}, done{0};
        std::atomic<bool> finished{false};
        std::vector<std::thread> ts;
        for(int t = 0; t < T; ++t)
        {
            uint64_t seed = r.next();
            ts.emplace_back([&, seed, t] {
                Rng g(seed);
                for(int n = 1;; ++n)
                {
                    while(go.load() < n && !finished.load()) std::this_thread::yield();
                    if(finished.load()) return;
                    auto b = now;
                    auto q = poll_request(g);
                    std::vector<std::unique_ptr<modbus::ITimer>> timers;
                    std::vector<std::shared_ptr<modbus::IScheduledRequest>> polls;
                    int op = b->ops[t % 2];
                    std::vector<uint16_t> ports;
                    if(op == NEW_SERVER) for(int i = 0; i < b->times; ++i) ports.push_back(net::next_port());
                    // now, all at once
                    ++done;
                    while(done.load(std::memory_order_relaxed) < n * 2 * T - T) {}
                    if(g.chance(1, 3)) for(volatile int k = (int)g.below(2000); k > 0; k = k - 1) {}
                    for(int i = 0; i < b->times; ++i)
                    {
                        switch(op)
                        {
                        case SEND:
                            ++b->submitted;
                            if(g.chance(1, 8)) q.qty = (uint16_t)(g.chance(1, 2) ? 0 : 3000); // not valid
                            lib::send(*b->session, q, modbus::duration_t(-1), [b](const Rsp&) { In in(b->inside); ++b->completed; });
                            break;
                        case SCHEDULE: polls.push_back(lib::schedule(*b->session, q, milliseconds(1500), std::chrono::microseconds(300 + g.below(3000)), [b](const Rsp&) { In in(b->inside); count("polls"); })); break;
                        case END_SESSION: b->session->shutdown(); break;
                        case NEW_SESSION: b->client->create_session(modbus::UnitIdentifier{100}, milliseconds(2000)); break;
                        case POLL_START: b->poll->start(); break;
                        case POLL_STOP: b->poll->stop(); b->poll->is_running(); break;
                        case FREQUENCY: b->poll->set_frequency(std::chrono::microseconds(300 + g.below(3000))); b->poll->get_frequency(); break;
                        case TIMER:
                            timers.push_back(b->session->start(std::chrono::microseconds(g.below(500)), [b] { In in(b->inside); count("timer_runs"); }));
                            if(g.chance(1, 2)) timers.back()->cancel();
                            break;
                        case END_CLIENT: b->client->shutdown(); break;
                        case NEW_CLIENT: mgr->create_client_tcp_channel("new", modbus::Ipv4Endpoint{net::own_host(), port}); break;
                        case SERVER_START: b->server->start(); break;
                        case SERVER_ADD: b->server->add_session(modbus::UnitIdentifier{(uint8_t)(1 + g.below(3))}, db); break;
                        case SERVER_END: b->server->shutdown(); break;
                        case NEW_SERVER: mgr->create_server_tcp_channel("new", modbus::Ipv4Endpoint{net::own_host(), ports[(size_t)i]}); break;
                        case DATABASE: db->execute_transaction([&](modbus::IDatabase& d) { uint16_t v; d.get_holding_register(1, v); d.set_holding_register(1, (uint16_t)(v + 1)); }); break;
                        default: break;
                        }
                        count("operations");
                    }
                    ++done;
                    for(auto& x : polls) x->stop();
                }
            });
        }
        for(int n = 1; n <= 40; ++n)
        {
            if(todo.empty())
            {
                // each operation against itself and against each other one, in any order
                for(int a = 0; a < OPS; ++a) for(int c = a; c < OPS; ++c) todo.push_back({a, c});
                for(int a = 0; a < OPS; ++a) for(int k = 0; k < 4; ++k) todo.push_back({a, a});
                for(size_t i = todo.size(); i > 1; --i) std::swap(todo[i - 1], todo[r.below(i)]);
            }
            auto b = std::make_shared<Burst>();
            b->ops[0] = todo.back().first;
            b->ops[1] = todo.back().second;
            todo.pop_back();
            b->times = 1 + (int)r.below(12);
            b->client = mgr->create_client_tcp_channel("cli", modbus::Ipv4Endpoint{net::own_host(), port}, "", modbus::LoggingLevel::Trace);
            b->session = b->client->create_session(modbus::UnitIdentifier{1}, milliseconds(2000));
            b->poll = lib::schedule(*b->session, poll_request(r), milliseconds(1500), std::chrono::microseconds(500 + r.below(2000)), [b = b.get()](const Rsp&) { In in(b->inside); count("polls"); });
            b->server = mgr->create_server_tcp_channel("short", modbus::Ipv4Endpoint{net::own_host(), net::next_port()});
            if(r.chance(1, 2)) b->server->start();
            if(r.chance(1, 2)) { lib::send(*b->session, poll_request(r), modbus::duration_t(-1), [b](const Rsp&) { In in(b->inside); ++b->completed; }); ++b->submitted; }
            if(r.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
            bursts.push_back(b);
            now = b;
            go = n;
            while(done.load() < n * 2 * T) std::this_thread::yield();
            count("bursts");
            distinct(((uint64_t)b->ops[0] << 20) | ((uint64_t)b->ops[1] << 12) | (uint64_t)(b->times << 4) | (uint64_t)T);
            if(round == 0 && n == 1) sample(std::string(names[b->ops[0]]) + " and " + names[b->ops[1]] + " by " + std::to_string(T) + " threads, " + std::to_string(b->times) + " times each");
            // a few live on while the next bursts run
            b->poll->stop();
            if(b->ops[0] == END_CLIENT || b->ops[1] == END_CLIENT) continue;
            if(r.chance(3, 4))
            {
                if(!eventually([&] { return b->completed == b->submitted; })) violation("e2e-never-completed", std::to_string(b->submitted - b->completed) + " of " + std::to_string(b->submitted) + " requests never completed", true);
                if(r.chance(3, 4)) b->client->shutdown();
            }
        }
        finished = true;
        for(auto& t : ts) t.join();
        must_return("end-destructor-hangs", "the destructor of the manager did not return", [&] { mgr.reset(); });
        for(auto& b : bursts)
        {
            if(b->completed > b->submitted) violation("e2e-completed-twice", "more requests completed than were sent");
            // (the handlers hold the burst, and the burst what would hold the handlers)
            b->session.reset();
            b->poll.reset();
            b->client.reset();
            b->server.reset();
        }
        count("histories");
        clear_faults();
        if(ctx().violations > 10) break;
    }
    note_faults();
}

// ---- what channels log ----
struct LogRec { std::string name; int level; };
class NameSink : public spdlog::sinks::base_sink<std::mutex>
{
public:
    std::vector<LogRec> take()
    {
        std::lock_guard<std::mutex> l(mutex_);
        std::vector<LogRec> r;
        r.swap(recs);
        return r;
    }
protected:
    void sink_it_(const spdlog::details::log_msg& m) override { recs.push_back({std::string(m.logger_name.data(), m.logger_name.size()), (int)m.level}); }
    void flush_() override {}
    std::vector<LogRec> recs;
};
void sc_loglevels()
{
    Rng r(ctx().seed);
    static const modbus::LoggingLevel L[] = {modbus::LoggingLevel::Trace, modbus::LoggingLevel::Debug, modbus::LoggingLevel::Info, modbus::LoggingLevel::Warn, modbus::LoggingLevel::Error, modbus::LoggingLevel::Critical};
    long rounds = ctx().cases(8, 10);
    for(long round = 0; round < rounds; ++round)
        for(int ml = 0; ml < 6; ++ml)
        {
            auto sink = std::make_shared<NameSink>();
            auto mgr = modbus::IModbusManager::create(modbus::LoggerFactory::create_custom_logger(std::make_shared<spdlog::logger>("root", sink), L[ml]), 2);
            std::vector<std::shared_ptr<modbus::IServerChannel>> sch;
            std::vector<std::shared_ptr<modbus::IClientChannel>> cch;
            std::map<std::string, int> level;
            Gate g;
            int n = 0;
            for(int k = 0; k < 6; ++k)
            {
                auto port = net::next_port();
                int sl = k, cl = (int)r.below(6);
                std::string sname = "server-" + std::to_string(k), cname = "client-" + std::to_string(k);
                sch.push_back(mgr->create_server_tcp_channel(sname, modbus::Ipv4Endpoint{net::own_host(), port}, 4, L[sl]));
                level[sname] = sl;
                sch.back()->add_session(modbus::UnitIdentifier{1}, std::make_shared<lib::RecSession>((uint8_t)1, [](uint8_t unit, const Req& q) { return ref::device_response(unit, q, 1); }));
                sch.back()->start();
                cch.push_back(mgr->create_client_tcp_channel(cname, modbus::Ipv4Endpoint{net::own_host(), port}, "", L[cl]));
                level[cname] = cl;
                auto s = cch.back()->create_session(modbus::UnitIdentifier{1}, LONG);
                auto t = cch.back()->create_session(modbus::UnitIdentifier{2}, milliseconds(5)); // nobody answers
                for(int i = 0; i < 3; ++i) { ++n; lib::send(*s, ref::random_request(r), modbus::duration_t(-1), [&](const Rsp&) { g.arrive(); }); }
                ++n;
                lib::send(*t, ref::random_request(r), modbus::duration_t(-1), [&](const Rsp&) { g.arrive(); });
            }
            if(!g.wait((size_t)n, WATCHDOG_S)) violation("e2e-never-completed", "requests never completed", true);
            mgr.reset();
            std::map<std::string, std::set<int>> seen;
            for(auto& x : sink->take())
            {
                count("records");
                std::string base;
                for(auto& kv : level) if(x.name.compare(0, kv.first.size(), kv.first) == 0) base = kv.first;
                if(base.empty()) continue; // of the manager or a session
                seen[base].insert(x.level);
                if(x.level < level[base]) violation("e2e-log-level", "a channel of level " + std::to_string(level[base]) + " logged a record of level " + std::to_string(x.level) + " as " + x.name);
            }
            // records of the channels' work are there, from the channel's own level on
            for(auto& kv : level)
            {
                if(kv.second <= 2 && !seen[kv.first].count(2)) violation("e2e-log-missing", kv.first + " of level " + std::to_string(kv.second) + " logged no information about its connection");
                distinct(fnv(kv.first) + (uint64_t)(kv.second * 10 + ml));
                count("channels");
            }
            if(ml == 0 && round == 0) sample("12 channels of all levels");
        }
}

} // namespace

extern "C" int __lsan_is_turned_off() { return leaks_expected ? 1 : 0; }

int main(int argc, char** argv)
{
    return run_main(argc, argv, {{"fidelity", sc_fidelity}, {"database", sc_database}, {"lifecycle", sc_lifecycle}, {"large", sc_large}, {"lifecycle_api", sc_lifecycle_api},
                                 {"client_end", sc_client_end}, {"server_end", sc_server_end}, {"stress", sc_stress}, {"burst", sc_burst}, {"loglevels", sc_loglevels}});
}
