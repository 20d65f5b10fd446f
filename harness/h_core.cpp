// The value types and the data stores, which need no I/O.
#include "vh.h"

#include <algorithm>
#include <array>
#include <memory>
#include <sstream>
#include <iomanip>
#include <type_traits>
#include <typeinfo>

#include "modbus/Expected.h"
#include "modbus/Ipv4Endpoint.h"
#include "modbus/UnitIdentifier.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/server/db/InMemoryDatabase.h"
#include "modbus/server/db/SingleTypeDatabase.h"
#include "TransactionIdentifier.h"

using namespace vh;
using namespace modbus;

namespace
{

const char* const NAMES[] = {"Illegal function", "Illegal data address", "Illegal data value", "Server device failure", "Acknowledge", "Server device busy",
                             "Memory parity error", "Gateway path unavailable", "Gateway target device failed to respond"};
const ExceptionType TYPES[] = {ExceptionType::IllegalFunction, ExceptionType::IllegalDataAddress, ExceptionType::IllegalDataValue,
                               ExceptionType::ServerDeviceFailure, ExceptionType::Acknowledge, ExceptionType::ServerDeviceBusy,
                               ExceptionType::MemoryParityError, ExceptionType::GatewayPathUnavailable, ExceptionType::GatewayTargetDeviceFailedToRespond};
const int CODES[] = {1, 2, 3, 4, 5, 6, 8, 0x0A, 0x0B};

struct BaseError
{
    int code;
};

struct PolyError : std::runtime_error
{
    int code;
    explicit PolyError(int c) : std::runtime_error("poly"), code(c) {}
};

// =====================================================================================
// Identifiers and endpoints
// =====================================================================================

// Numbers as another country writes them.
struct Grouped : std::numpunct<char>
{
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
};

template <class Id> void stream_cases(Rng& r, unsigned value, unsigned width, const char* what)
{
    char want[16];
    snprintf(want, sizeof want, width == 2 ? "0x%02X" : "0x%04X", value);
    Id id((decltype(id.get_value()))value);
    std::ostringstream plain;
    plain << id;
    if(plain.str() != want) violation(std::string(what) + "-format", std::string("printed as '") + plain.str() + "', not '" + want + "'");
    // whatever the stream's format, what is printed after is as if nothing was printed before
    std::ostringstream a, b;
    auto setup = [&](std::ostream& o, uint64_t bits) {
        if(bits & 1) o << std::hex;
        else if(bits & 2) o << std::oct;
        if(bits & 4) o << std::setfill('*');
        if(bits & 8) o << std::left;
        if(bits & 16) o << std::uppercase;
        if(bits & 32) o << std::boolalpha;
        if(bits & 64) o << std::scientific << std::setprecision(3);
        if(bits & 128) o << std::showpos;
        if(bits & 256) o << std::internal;
        if(bits & 512) o << std::showbase;
        if(bits & 1024) o << std::unitbuf;
        if(bits & 2048) o.imbue(std::locale(std::locale::classic(), new Grouped));
    };
    uint64_t bits = r.next() & 0xFFF;
    setup(a, bits);
    setup(b, bits);
    auto f = b.flags();
    auto loc = b.getloc();
    b << id;
    if(b.flags() != f) violation(std::string(what) + "-stream-state", "printing changed the flags of the stream");
    std::string got = b.str();
    if(got != want) violation(std::string(what) + "-format", std::string("with other stream flags printed as '") + got + "', not '" + want + "'");
    b.str("");
    a << std::setw(6) << 255 << ' ' << true << ' ' << 3.25;
    b << std::setw(6) << 255 << ' ' << true << ' ' << 3.25;
    if(a.str() != b.str()) violation(std::string(what) + "-stream-state", "after printing, a number is formatted as '" + b.str() + "', not '" + a.str() + "'");
    if(b.getloc() != loc) violation(std::string(what) + "-stream-state", "printing changed the locale of the stream");
    // within a line, after other things, and on a stream which was made to throw
    std::ostringstream chain;
    if(bits & 1) chain.exceptions(std::ios::badbit | std::ios::failbit);
    chain << id << "," << id;
    if(chain.str() != std::string(want) + "," + want) violation(std::string(what) + "-format", "two in a row printed as '" + chain.str() + "'");
    count("formatted");
}

void s_idents()
{
    Rng r(ctx().seed);
    std::hash<UnitIdentifier> hs;
    std::set<size_t> hashes;
    for(unsigned a = 0; a < 256; ++a)
    {
        UnitIdentifier ua((uint8_t)a);
        if(ua.get_value() != a) violation("unit-value", "unit " + std::to_string(a) + " reads back as " + std::to_string(ua.get_value()));
        for(unsigned b = 0; b < 256; ++b)
        {
            UnitIdentifier ub((uint8_t)b);
            if((ua == ub) != (a == b) || (ua != ub) != (a != b)) violation("unit-equality", "units " + std::to_string(a) + " and " + std::to_string(b) + " compare wrongly");
            if(a == b && hs(ua) != hs(ub)) violation("unit-hash", "equal units with different hashes: " + std::to_string(a));
            count("compared");
        }
        hashes.insert(hs(ua));
        stream_cases<UnitIdentifier>(r, a, 2, "unit");
        distinct(a);
    }
    if(UnitIdentifier::default_unit_identifier().get_value() != 0xFF) violation("unit-default", "the default unit is not 0xFF");

    uint64_t step = ctx().thorough() ? 1 : 1;
    for(unsigned a = 0; a < 65536; a += (unsigned)step)
    {
        TransactionIdentifier t((uint16_t)a);
        if(t.get_value() != a) violation("transaction-value", std::to_string(a) + " reads back as " + std::to_string(t.get_value()));
        TransactionIdentifier old = t++;
        unsigned next = (a + 1) & 0xFFFF;
        if(old.get_value() != a || t.get_value() != next) violation("transaction-increment", "post-increment of " + std::to_string(a));
        TransactionIdentifier u((uint16_t)a);
        TransactionIdentifier& ref = ++u;
        if(&ref != &u || u.get_value() != next) violation("transaction-increment", "pre-increment of " + std::to_string(a));
        if(!(t == u) || t != u || old == t || !(old != t)) violation("transaction-equality", "around " + std::to_string(a));
        unsigned b = r.u16();
        TransactionIdentifier o((uint16_t)b);
        if((old == o) != (a == b) || (old != o) != (a != b)) violation("transaction-equality", std::to_string(a) + " against " + std::to_string(b));
        for(unsigned bit = 0; bit < 16; ++bit) // one bit of difference is a difference
        {
            TransactionIdentifier f((uint16_t)(a ^ (1u << bit)));
            if(old == f || !(old != f)) violation("transaction-equality", std::to_string(a) + " equals " + std::to_string(a ^ (1u << bit)));
        }
        if(a % 7 == 0 || a < 300 || a > 65300 || ctx().thorough()) stream_cases<TransactionIdentifier>(r, a, 4, "transaction");
        count("compared", 18);
        distinct(0x10000 + a);
    }

    std::vector<std::string> hosts = {"", "a", "b", "127.0.0.1", "127.0.0.2", "127.0.0.1 ", "foo.com", "FOO.com", std::string("x\0y", 3), std::string("x\0z", 3), std::string(300, 'h')};
    std::vector<uint32_t> ports = {0, 1, 502, 503, 0x1F6 + 0x10000, 0x1F6 + 0x100, 65535, 65536, 65537, 0x80000000u, 0xFFFFFFFFu, 20000, 85536};
    for(auto& h1 : hosts)
        for(auto p1 : ports)
        {
            Ipv4Endpoint e1(h1, p1);
            if(e1.get_hostname() != h1 || e1.get_port() != p1) violation("endpoint-value", "'" + h1 + "':" + std::to_string(p1) + " does not read back");
            for(auto& h2 : hosts)
                for(auto p2 : ports)
                {
                    Ipv4Endpoint e2(h2, p2);
                    bool eq = h1 == h2 && p1 == p2;
                    if((e1 == e2) != eq || (e1 != e2) == eq)
                        violation("endpoint-equality", "'" + h1 + "':" + std::to_string(p1) + " against '" + h2 + "':" + std::to_string(p2));
                    count("compared");
                }
            Ipv4Endpoint copy(e1);
            if(copy != e1) violation("endpoint-value", "a copy differs");
        }
    for(long i = 0; i < ctx().cases(20000, 400000); ++i)
    {
        std::string h(r.below(6), 'a');
        for(auto& c : h) c = (char)('a' + r.below(2));
        uint32_t p = (uint32_t)r.below(3), q = (uint32_t)r.below(3);
        std::string g(r.below(6), 'a');
        for(auto& c : g) c = (char)('a' + r.below(2));
        bool eq = h == g && p == q;
        if((Ipv4Endpoint(h, p) == Ipv4Endpoint(g, q)) != eq || (Ipv4Endpoint(h, p) != Ipv4Endpoint(g, q)) == eq)
            violation("endpoint-equality", "'" + h + "':" + std::to_string(p) + " against '" + g + "':" + std::to_string(q));
        count("compared");
    }
    sample("units 0..255 x 0..255 compared and printed; transaction ids 0..65535 incremented, compared and printed");
}

void s_exctype()
{
    Rng r(ctx().seed);
    for(int c = 0; c < 256; ++c)
    {
        int k = -1;
        for(int i = 0; i < 9; ++i) if(CODES[i] == c) k = i;
        auto t = parse_exception_type((uint8_t)c);
        if(k >= 0 ? t != TYPES[k] : t != ExceptionType::Unknown)
            violation("exception-code-parse", "code " + std::to_string(c) + " is not mapped to " + (k >= 0 ? NAMES[k] : "Unknown"));
        if(k >= 0 && (int)t != c) violation("exception-code-value", std::string(NAMES[k]) + " has the value " + std::to_string((int)t) + ", its code is " + std::to_string(c));
        std::ostringstream o;
        o << t;
        std::string want = k >= 0 ? NAMES[k] : "Unknown";
        if(o.str() != want) violation("exception-name", "code " + std::to_string(c) + " is named '" + o.str() + "', not '" + want + "'");
        ModbusException e(t);
        const IException& base = e;
        if(e.get_exception_type() != t || base.get_message() != want || ModbusException::get_message(t) != want)
            violation("exception-object", "ModbusException for code " + std::to_string(c) + " carries '" + base.get_message() + "'");
        auto x = Expected<int>::from_exception(e);
        if(!x.has_exception<ModbusException>() || x.get_exception<ModbusException>().get_exception_type() != t || static_cast<const IException&>(x.get_exception<ModbusException>()).get_message() != want ||
           !x.has_exception<IException>() || x.get_exception<IException>().get_message() != want)
            violation("exception-object", "code " + std::to_string(c) + " changed on its way through Expected");
        count("codes");
        distinct((uint64_t)c);
    }
    for(int i = 0; i < 300; ++i)
    {
        std::string m(r.below(80), 'x');
        for(auto& ch : m) ch = (char)r.u8();
        if(ConnectionException(m).get_message() != m || MalformedModbusRequestException(m).get_message() != m || MalformedModbusResponseException(m).get_message() != m)
            violation("exception-message", "a message is not kept");
        count("messages");
    }
    sample("codes 0..255 parsed, named and carried through ModbusException and Expected");
}

// =====================================================================================
// SingleTypeDatabase against a map
// =====================================================================================

template <class T> T rnd(Rng& r);
template <> bool rnd<bool>(Rng& r) { return r.chance(1, 2); }
template <> uint16_t rnd<uint16_t>(Rng& r) { return r.edge16(); }

template <class T> struct Model
{
    std::map<unsigned, T> m;
    bool range(unsigned a, size_t n) const
    {
        if(a + n > 65536) return false;
        for(size_t i = 0; i < n; ++i) if(!m.count((unsigned)(a + i))) return false;
        return true;
    }
};

template <class T> void compare_all(const SingleTypeDatabase<T>& db, const Model<T>& m, unsigned lo, unsigned hi, const std::string& trace, const char* name)
{
    for(unsigned a = lo; a <= hi; ++a)
    {
        T out = T(1);
        auto it = m.m.find(a);
        bool ok = db.get_value((Address)a, out);
        if(ok != (it != m.m.end()) || (ok && out != it->second) || (!ok && out != T(1)) || db.is_valid((Address)a) != ok)
        {
            violation(std::string(name) + "-state", trace + ": address " + std::to_string(a) + " differs from the model");
            return;
        }
    }
}

template <class T> void singledb_case(Rng& r, const char* name)
{
    SingleTypeDatabase<T> db;
    Model<T> m;
    unsigned base = r.chance(1, 3) ? 0 : r.chance(1, 2) ? 65536 - 24 : (unsigned)r.below(65536 - 24);
    unsigned hi = base + 23;
    std::string trace = std::string(name) + " base=" + std::to_string(base) + ":";
    uint64_t h = base;
    auto addr = [&] { return r.chance(1, 12) ? (unsigned)r.u16() : base + (unsigned)r.below(24); };
    unsigned dense = (unsigned)r.below(4);
    if(dense)
        for(unsigned a = base; a <= hi; ++a)
            if(dense == 3 || r.chance(dense, 3) || (dense == 2 && a % 7))
            {
                T v = rnd<T>(r);
                if(!db.add_value((Address)a, v)) violation(std::string(name) + "-add", trace + " adding a new address failed");
                m.m.insert({a, v});
            }
    unsigned ops = 20 + (unsigned)r.below(40), last = base;
    for(unsigned i = 0; i < ops; ++i)
    {
        unsigned a = r.chance(1, 5) ? last : addr(), op = (unsigned)r.below(7);
        last = a;
        size_t n = r.chance(1, 8) ? r.below(3000) : r.below(26);
        char b[64];
        snprintf(b, sizeof b, " %u@%u+%zu", op, a, n);
        if(trace.size() < 700) trace += b;
        h = fnv(b, strlen(b), h);
        switch(op)
        {
        case 0:
        {
            T v = rnd<T>(r);
            bool want = m.m.insert({a, v}).second;
            if(db.add_value((Address)a, v) != want) violation(std::string(name) + "-add", trace);
            break;
        }
        case 1:
        {
            T v = rnd<T>(r);
            bool want = m.m.count(a) != 0;
            if(want) m.m[a] = v;
            if(db.set_value((Address)a, v) != want) violation(std::string(name) + "-set", trace);
            break;
        }
        case 2: case 3:
        {
            std::vector<T> v(n);
            for(size_t k = 0; k < n; ++k) v[k] = rnd<T>(r);
            bool want = m.range(a, n);
            if(n && want) for(size_t k = 0; k < n; ++k) m.m[(unsigned)(a + k)] = v[k];
            bool got = db.set_values((Address)a, v);
            if(n && got != want) violation(std::string(name) + "-set-range", trace + (got ? " accepted" : " refused"));
            break;
        }
        case 4: case 5:
        {
            std::vector<T> v(n), before;
            for(size_t k = 0; k < n; ++k) v[k] = rnd<T>(r);
            before = v;
            bool want = m.range(a, n);
            if(n && want) for(size_t k = 0; k < n; ++k) before[k] = m.m[(unsigned)(a + k)];
            bool got = db.get_values((Address)a, v);
            if(n && got != want) violation(std::string(name) + "-get-range", trace + (got ? " accepted" : " refused"));
            else if(v != before) violation(std::string(name) + "-get-range", trace + (want ? " returned other values" : " failed but changed the output"));
            break;
        }
        default:
            if(n && db.is_valid_range((Address)a, n) != m.range(a, n)) violation(std::string(name) + "-valid-range", trace);
            break;
        }
        count(std::string(name) + "_ops");
        if(r.chance(1, 4)) compare_all(db, m, base, hi, trace, name);
    }
    compare_all(db, m, base, hi, trace, name);
    // copies are stores of their own
    SingleTypeDatabase<T> copy(db);
    Model<T> cm = m;
    if(r.chance(1, 2)) { SingleTypeDatabase<T> other; other.add_value((Address)base, T(1)); other.is_valid_range((Address)base, 1); other = copy; std::swap(copy, other); }
    for(int i = 0; i < 6; ++i)
    {
        bool first = r.chance(1, 2);
        auto& d = first ? db : copy;
        auto& dm = first ? m : cm;
        // mostly what was accessed last before the copy was made
        unsigned a = i < 3 && r.chance(2, 3) ? last : addr();
        if(r.chance(1, 2))
        {
            T v = rnd<T>(r), out = v;
            bool want = dm.m.count(a) != 0;
            if(d.set_value((Address)a, v) != want || d.get_value((Address)a, out) != want || out != v || d.is_valid((Address)a) != want) violation(std::string(name) + "-set", trace + " on a copy or its original");
            if(want) dm.m[a] = v;
            compare_all(db, m, base, hi, trace + " after changing a copy", name);
            compare_all(copy, cm, base, hi, trace + " in the copy", name);
        }
        std::vector<T> v(1 + r.below(10));
        for(size_t k = 0; k < v.size(); ++k) v[k] = rnd<T>(r);
        std::vector<T> got(v.size());
        bool want = dm.range(a, v.size());
        if(d.get_values((Address)a, got) != want || (want && got[0] != dm.m[a])) violation(std::string(name) + "-get-range", trace + " on a copy or its original");
        if(r.chance(1, 2))
        {
            if(want) for(size_t k = 0; k < v.size(); ++k) dm.m[(unsigned)(a + k)] = v[k];
            if(d.set_values((Address)a, v) != want) violation(std::string(name) + "-set-range", trace + " on a copy or its original");
        }
        else
        {
            bool fresh = dm.m.insert({a, v[0]}).second;
            if(d.add_value((Address)a, v[0]) != fresh) violation(std::string(name) + "-add", trace + " on a copy or its original");
        }
    }
    compare_all(db, m, base, hi, trace + " after changing a copy", name);
    compare_all(copy, cm, base, hi, trace + " in the copy", name);
    distinct(h);
    sample(trace);
}

template <class T> void full_table(Rng& r, const char* name)
{
    SingleTypeDatabase<T> db;
    Model<T> m;
    // added in a scrambled order
    std::vector<unsigned> order(65536);
    for(unsigned i = 0; i < 65536; ++i) order[i] = i;
    for(unsigned i = 65535; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
    for(auto a : order)
    {
        T v = rnd<T>(r);
        m.m[a] = v;
        if(!db.add_value((Address)a, v)) violation(std::string(name) + "-add", "full table: add refused");
    }
    struct { unsigned a; size_t n; } ranges[] = {{0, 65536}, {0, 65535}, {0, 65537}, {1, 65535}, {1, 65536}, {65535, 1}, {65535, 2}, {65534, 2}, {65534, 3}, {32768, 32768}, {32768, 32769}, {32767, 32769}, {0, 131072}, {5, 65531}, {5, 65532}, {0, 1}, {0, 100000}};
    for(auto& g : ranges)
    {
        bool want = m.range(g.a, g.n);
        if(db.is_valid_range((Address)g.a, g.n) != want) violation(std::string(name) + "-valid-range", "full table: " + std::to_string(g.a) + "+" + std::to_string(g.n));
        std::vector<T> v(g.n);
        bool got = db.get_values((Address)g.a, v);
        bool ok = got == want;
        if(got && want) for(size_t k = 0; k < g.n; ++k) if(v[k] != m.m[(unsigned)(g.a + k)]) ok = false;
        if(!ok) violation(std::string(name) + "-get-range", "full table: " + std::to_string(g.a) + "+" + std::to_string(g.n));
        for(size_t k = 0; k < g.n; ++k) v[k] = rnd<T>(r);
        if(want) for(size_t k = 0; k < g.n; ++k) m.m[(unsigned)(g.a + k)] = v[k];
        if(db.set_values((Address)g.a, v) != want) violation(std::string(name) + "-set-range", "full table: " + std::to_string(g.a) + "+" + std::to_string(g.n));
        count(std::string(name) + "_ops", 3);
    }
    compare_all(db, m, 0, 65535, "full table", name);
    std::vector<T> huge(65536u * 2u);
    if(db.is_valid_range(0, (size_t)1 << 32) || db.is_valid_range(0, ((size_t)1 << 32) + 3) || db.is_valid_range(0, ((size_t)1 << 16) + 5) || db.is_valid_range(7, ~(size_t)0))
        violation(std::string(name) + "-valid-range", "a range longer than the address space is valid");
}

void s_singledb()
{
    Rng r(ctx().seed);
    long n = ctx().cases(800, 40000);
    for(long i = 0; i < n; ++i)
    {
        singledb_case<bool>(r, "bits");
        singledb_case<uint16_t>(r, "registers");
    }
    full_table<bool>(r, "bits");
    full_table<uint16_t>(r, "registers");
    // one hole anywhere refuses exactly the ranges over it
    for(int k = 0; k < (ctx().thorough() ? 400 : 60); ++k)
    {
        SingleTypeDatabase<uint16_t> db;
        Model<uint16_t> m;
        unsigned base = r.chance(1, 2) ? 65536 - 12 : (unsigned)r.below(60000), hole = base + (unsigned)r.below(12);
        for(unsigned a = base; a < base + 12; ++a) if(a != hole) { db.add_value((Address)a, (uint16_t)a); m.m[a] = (uint16_t)a; }
        for(unsigned a = base; a < base + 12; ++a)
            for(size_t len = 1; len <= 14; ++len)
            {
                if(db.is_valid_range((Address)a, len) != m.range(a, len)) violation("registers-valid-range", "hole at " + std::to_string(hole) + ": " + std::to_string(a) + "+" + std::to_string(len));
                count("registers_ops");
            }
        distinct(0xABCD0000ull + hole);
    }
}

// =====================================================================================
// InMemoryDatabase, one thread, against the model
// =====================================================================================

// Operations on the database, their results, and the model that says what the results must be.
enum Table { COIL, DISCRETE, HOLDING, INPUT };
struct Op
{
    enum Kind { ADD, READ, WRITE1, WRITEN, TXN, GET, SET } kind = ADD; // GET and SET only within a transaction
    int table = 0;
    unsigned addr = 0;
    unsigned qty = 0;
    std::vector<uint16_t> values;
    std::vector<Op> sub;
    // the result
    bool ok = false;
    std::vector<uint16_t> out;
    std::string bad; // the answer was not of a permitted form
    std::string str() const
    {
        static const char* k[] = {"add", "read", "write1", "writen", "txn", "get", "set"};
        static const char* t[] = {"coil", "discrete", "holding", "input"};
        std::ostringstream o;
        o << k[kind];
        if(kind == TXN)
        {
            o << "{";
            for(auto& s : sub) o << s.str() << ";";
            o << "}";
            return o.str();
        }
        o << "(" << t[table] << "@" << addr;
        if(kind == READ) o << "+" << qty;
        for(auto v : values) o << "," << v;
        o << ")=" << (ok ? "ok" : "no");
        for(size_t i = 0; i < out.size() && i < 8; ++i) o << " " << out[i];
        return o.str();
    }
};

template <class R> void bits_req(R& q, const Op& o) { q.starting_address = (Address)o.addr; q.qty_of_bits = (uint16_t)o.qty; }
template <class R> void regs_req(R& q, const Op& o) { q.starting_address = (Address)o.addr; q.qty_of_registers = (uint16_t)o.qty; }

template <class E> void refusal(Op& o, const E& e)
{
    o.ok = false;
    if(!e.template has_exception<ModbusException>()) o.bad = "failed with something that is not a Modbus exception";
    else if(e.template get_exception<ModbusException>().get_exception_type() != ExceptionType::IllegalDataAddress) o.bad = "failed with a code that is not illegal data address";
}
template <class E> void read_result(Op& o, const E& e)
{
    if(!e.is_valid()) { refusal(o, e); return; }
    o.ok = true;
    unsigned i = 0;
    for(auto& v : e.get().values)
    {
        if(v.address != (uint16_t)(o.addr + i)) o.bad = "answered address " + std::to_string(v.address) + " at position " + std::to_string(i);
        o.out.push_back((uint16_t)v.value);
        ++i;
    }
    if(i != o.qty) o.bad = "answered " + std::to_string(i) + " values for " + std::to_string(o.qty);
}

void perform_sub(IDatabase& d, Op& o)
{
    bool b = false;
    uint16_t w = 0;
    const IDatabase& cd = d;
    if(o.kind == Op::GET)
    {
        switch(o.table)
        {
        case COIL: o.ok = cd.get_coil((Address)o.addr, b); w = b; break;
        case DISCRETE: o.ok = cd.get_discrete_input((Address)o.addr, b); w = b; break;
        case HOLDING: o.ok = cd.get_holding_register((Address)o.addr, w); break;
        default: o.ok = cd.get_input_register((Address)o.addr, w); break;
        }
        if(o.ok) o.out = {w};
    }
    else
        switch(o.table)
        {
        case COIL: o.ok = d.set_coil((Address)o.addr, o.values[0] != 0); break;
        case DISCRETE: o.ok = d.set_discrete_input((Address)o.addr, o.values[0] != 0); break;
        case HOLDING: o.ok = d.set_holding_register((Address)o.addr, o.values[0]); break;
        default: o.ok = d.set_input_register((Address)o.addr, o.values[0]); break;
        }
}

void perform(InMemoryDatabase& db, Op& o, const std::function<void()>& inside = {})
{
    IServerSession& s = db;
    switch(o.kind)
    {
    case Op::ADD:
        switch(o.table)
        {
        case COIL: o.ok = db.add_coil((Address)o.addr, o.values[0] != 0); break;
        case DISCRETE: o.ok = db.add_discrete_input((Address)o.addr, o.values[0] != 0); break;
        case HOLDING: o.ok = db.add_holding_register((Address)o.addr, o.values[0]); break;
        default: o.ok = db.add_input_register((Address)o.addr, o.values[0]); break;
        }
        break;
    case Op::READ:
        if(o.table == COIL) { ReadCoilsRequest q; bits_req(q, o); read_result(o, s.on_request(q)); }
        else if(o.table == DISCRETE) { ReadDiscreteInputsRequest q; bits_req(q, o); read_result(o, s.on_request(q)); }
        else if(o.table == HOLDING) { ReadHoldingRegistersRequest q; regs_req(q, o); read_result(o, s.on_request(q)); }
        else { ReadInputRegistersRequest q; regs_req(q, o); read_result(o, s.on_request(q)); }
        break;
    case Op::WRITE1:
        if(o.table == COIL)
        {
            WriteSingleCoilRequest q;
            q.value.address = (Address)o.addr;
            q.value.value = o.values[0] != 0;
            auto e = s.on_request(q);
            if(!e.is_valid()) refusal(o, e);
            else { o.ok = true; if(e.get().value.address != o.addr || e.get().value.value != (o.values[0] != 0)) o.bad = "the answer does not echo the write"; }
        }
        else
        {
            WriteSingleRegisterRequest q;
            q.value.address = (Address)o.addr;
            q.value.value = o.values[0];
            auto e = s.on_request(q);
            if(!e.is_valid()) refusal(o, e);
            else { o.ok = true; if(e.get().value.address != o.addr || e.get().value.value != o.values[0]) o.bad = "the answer does not echo the write"; }
        }
        break;
    case Op::WRITEN:
        if(o.table == COIL)
        {
            WriteMultipleCoilsRequest q;
            q.starting_address = (Address)o.addr;
            for(auto v : o.values) q.values.push_back(v != 0);
            auto e = s.on_request(q);
            if(!e.is_valid()) refusal(o, e);
            else { o.ok = true; if(e.get().starting_address != o.addr || e.get().qty_of_coils != o.values.size()) o.bad = "the answer does not state address and quantity"; }
        }
        else
        {
            WriteMultipleRegistersRequest q;
            q.starting_address = (Address)o.addr;
            q.values = o.values;
            auto e = s.on_request(q);
            if(!e.is_valid()) refusal(o, e);
            else { o.ok = true; if(e.get().starting_address != o.addr || e.get().qty_of_registers != o.values.size()) o.bad = "the answer does not state address and quantity"; }
        }
        break;
    case Op::TXN:
        o.ok = true;
        {
            int runs = 0;
            db.execute_transaction([&](IDatabase& d) {
                ++runs;
                for(auto& s2 : o.sub)
                {
                    perform_sub(d, s2);
                    if(inside) inside();
                }
            });
            if(runs != 1) o.bad = "the transaction ran " + std::to_string(runs) + " times";
        }
        break;
    default: break;
    }
}

using Tables = std::array<std::map<unsigned, uint16_t>, 4>;

// Applies an operation to the model; false when its recorded result is impossible there.
bool apply(Tables& t, const Op& o, bool fill_only = false, Op* filled = nullptr)
{
    auto& m = t[(size_t)o.table];
    bool ok = false;
    std::vector<uint16_t> out;
    auto range = [&](unsigned a, size_t n) {
        if(a + n > 65536) return false;
        for(size_t i = 0; i < n; ++i) if(!m.count((unsigned)(a + i))) return false;
        return n > 0;
    };
    switch(o.kind)
    {
    case Op::ADD: ok = m.insert({o.addr, o.values[0]}).second; break;
    case Op::READ:
        ok = range(o.addr, o.qty);
        if(ok) for(unsigned i = 0; i < o.qty; ++i) out.push_back(m[o.addr + i]);
        break;
    case Op::GET:
        ok = range(o.addr, 1);
        if(ok) out = {m[o.addr]};
        break;
    case Op::WRITE1: case Op::SET: case Op::WRITEN:
        ok = range(o.addr, o.values.size());
        if(ok) for(size_t i = 0; i < o.values.size(); ++i) m[(unsigned)(o.addr + i)] = o.values[i];
        break;
    case Op::TXN:
        ok = true;
        for(auto& s : o.sub) if(!apply(t, s)) return false;
        break;
    }
    if(fill_only) { filled->ok = ok; filled->out = out; return true; }
    return ok == o.ok && out == o.out;
}

uint16_t val_for(Rng& r, int table) { return table == COIL || table == DISCRETE ? (uint16_t)r.below(2) : r.edge16(); }

Op random_op(Rng& r, unsigned base, unsigned span, bool allow_txn, unsigned max_n)
{
    Op o;
    unsigned k = (unsigned)r.below(allow_txn ? 10 : 8);
    o.table = (int)r.below(4);
    o.addr = (base + (unsigned)r.below(span)) & 0xFFFF;
    if(k < 2) { o.kind = Op::ADD; o.values = {val_for(r, o.table)}; }
    else if(k < 5) { o.kind = Op::READ; o.qty = 1 + (unsigned)r.below(max_n); }
    else if(k < 6) { o.kind = Op::WRITE1; o.table = r.chance(1, 2) ? COIL : HOLDING; o.values = {val_for(r, o.table)}; }
    else if(k < 8)
    {
        o.kind = Op::WRITEN;
        o.table = r.chance(1, 2) ? COIL : HOLDING;
        unsigned n = 1 + (unsigned)r.below(max_n);
        for(unsigned i = 0; i < n; ++i) o.values.push_back(val_for(r, o.table));
    }
    else
    {
        o.kind = Op::TXN;
        o.table = 0;
        unsigned n = 1 + (unsigned)r.below(4);
        for(unsigned i = 0; i < n; ++i)
        {
            Op s;
            s.kind = r.chance(1, 2) ? Op::GET : Op::SET;
            s.table = (int)r.below(4);
            s.addr = (base + (unsigned)r.below(span)) & 0xFFFF;
            if(s.kind == Op::SET) s.values = {val_for(r, s.table)};
            o.sub.push_back(s);
        }
    }
    return o;
}

std::string op_key(const Op& o)
{
    static const char* k[] = {"add", "read", "write-single", "write-multiple", "transaction", "get", "set"};
    static const char* t[] = {"coil", "discrete", "holding", "input"};
    return std::string(k[o.kind]) + (o.kind == Op::TXN ? "" : std::string("-") + t[o.table]);
}

void memdb_case(Rng& r)
{
    auto dbp = std::make_shared<InMemoryDatabase>();
    auto& db = *dbp;
    Tables t;
    unsigned span = 8 + (unsigned)r.below(40);
    unsigned base = r.chance(1, 3) ? 65536 - span : r.chance(1, 3) ? 0 : (unsigned)r.below(65000);
    std::string trace;
    uint64_t h = base;
    // dense start so that ranges succeed often; the tables get different values and different holes
    for(int tb = 0; tb < 4; ++tb)
    {
        unsigned density = 1 + (unsigned)r.below(6);
        for(unsigned a = base; a < base + span; ++a)
            if(r.below(density + 1) || density == 6)
            {
                Op o;
                o.kind = Op::ADD;
                o.table = tb;
                o.addr = a & 0xFFFF;
                o.values = {val_for(r, tb)};
                perform(db, o);
                if(!apply(t, o)) violation("memdb-add", "adding a fresh value: " + o.str());
            }
    }
    unsigned ops = 30 + (unsigned)r.below(50);
    Op recent[2]; // the last read and the last write of several values
    bool has[2] = {};
    for(unsigned i = 0; i < ops; ++i)
    {
        Op o = random_op(r, base, span, true, r.chance(1, 10) ? (r.chance(1, 2) ? 2000u : 60u) : 10u);
        // the same once more, or a change of what was read or written last
        if(has[0] && r.chance(1, 4)) o = recent[0];
        else if(has[0] && r.chance(1, 5))
        {
            const Op& x = recent[has[1] ? r.below(2) : 0];
            unsigned at = (x.addr + (unsigned)r.below(std::max<uint64_t>(1, x.kind == Op::READ ? x.qty : x.values.size()))) & 0xFFFF;
            Op s;
            s.table = x.table;
            s.addr = at;
            s.values = {val_for(r, s.table)};
            if(r.chance(1, 2) || s.table == DISCRETE || s.table == INPUT)
            {
                s.kind = Op::SET;
                o = Op();
                o.kind = Op::TXN;
                o.sub = {s};
            }
            else { o = s; o.kind = r.chance(1, 2) ? Op::WRITE1 : r.chance(1, 2) ? Op::WRITEN : Op::ADD; }
        }
        o.ok = false;
        o.out.clear();
        o.bad.clear();
        if(o.kind == Op::READ) { recent[0] = o; has[0] = true; }
        if(o.kind == Op::WRITEN) { recent[1] = o; has[1] = true; }
        perform(db, o);
        if(trace.size() < 500) trace += o.str() + " ";
        h = fnv(o.str()) ^ (h * 1099511628211ull);
        count("memdb_" + op_key(o));
        if(!o.bad.empty()) violation("memdb-" + op_key(o), o.bad + ": " + o.str());
        Tables before = t;
        if(!apply(t, o))
        {
            Op f = o;
            apply(before, o, true, &f);
            violation("memdb-" + op_key(o), "answered " + o.str() + ", the model says " + f.str() + " after " + trace);
            return;
        }
        if(r.chance(1, 10) || i + 1 == ops) // the whole window
            for(int tb = 0; tb < 4; ++tb)
                for(unsigned a = base; a < base + span; ++a)
                {
                    Op g;
                    g.kind = Op::TXN;
                    Op s;
                    s.kind = Op::GET;
                    s.table = tb;
                    s.addr = a & 0xFFFF;
                    g.sub = {s};
                    perform(db, g);
                    if(!apply(t, g))
                    {
                        violation("memdb-state", "after " + o.str() + " the stored value differs: " + g.str());
                        return;
                    }
                }
    }
    distinct(h);
    sample(trace);
}

void s_memdb()
{
    Rng r(ctx().seed);
    long n = ctx().cases(700, 25000);
    for(long i = 0; i < n; ++i) memdb_case(r);
    // the largest quantities the protocol knows, at both ends of the address space
    auto dbp = std::make_shared<InMemoryDatabase>();
    auto& db = *dbp;
    Tables t;
    auto run = [&](Op o) {
        perform(db, o);
        count("memdb_large");
        if(!o.bad.empty()) violation("memdb-" + op_key(o), o.bad + ": " + o.str());
        if(!apply(t, o)) violation("memdb-" + op_key(o), "large range: " + o.str());
    };
    for(int tb = 0; tb < 4; ++tb)
        for(unsigned a = 0; a < 65536; ++a)
        {
            if(a > 2100 && a < 65536 - 2100) continue;
            Op o;
            o.kind = Op::ADD;
            o.table = tb;
            o.addr = a;
            o.values = {val_for(r, tb)};
            perform(db, o);
            apply(t, o);
        }
    for(unsigned a : {0u, 1u, 100u, 63536u, 63535u, 63537u, 65411u, 65412u, 65535u, 2099u, 2100u, 63435u, 63436u})
        for(unsigned n2 : {1u, 2u, 8u, 9u, 123u, 124u, 125u, 126u, 1968u, 2000u, 2001u})
        {
            for(int tb = 0; tb < 4; ++tb) { Op o; o.kind = Op::READ; o.table = tb; o.addr = a; o.qty = n2; run(o); }
            for(int tb : {COIL, HOLDING})
            {
                Op o;
                o.kind = Op::WRITEN;
                o.table = tb;
                o.addr = a;
                for(unsigned i = 0; i < n2; ++i) o.values.push_back(val_for(r, tb));
                run(o);
                Op o2;
                o2.kind = Op::READ;
                o2.table = tb;
                o2.addr = a;
                o2.qty = n2;
                run(o2);
            }
        }
    // a transaction whose function fails: the caller sees it, and the database is usable afterwards
    for(int i = 0; i < 50; ++i)
    {
        bool seen = false;
        switch(i % 6)
        {
        case 0:
            try { db.execute_transaction([&](IDatabase&) { throw BaseError{i}; }); }
            catch(const BaseError& e) { seen = e.code == i; }
            catch(...) {}
            break;
        case 1: // not a copy of a part of it
            try { db.execute_transaction([&](IDatabase&) { throw PolyError{i}; }); }
            catch(const std::exception& e) { auto p = dynamic_cast<const PolyError*>(&e); seen = p && p->code == i && std::string(e.what()) == "poly"; }
            catch(...) {}
            break;
        case 2:
            try { db.execute_transaction([&](IDatabase&) { throw i; }); }
            catch(int e) { seen = e == i; }
            catch(...) {}
            break;
        case 3:
            try { db.execute_transaction([&](IDatabase&) { throw std::string(40, (char)('a' + i % 26)); }); }
            catch(const std::string& e) { seen = e == std::string(40, (char)('a' + i % 26)); }
            catch(...) {}
            break;
        case 4:
            try { db.execute_transaction([&](IDatabase&) { throw ModbusException{ExceptionType::ServerDeviceBusy}; }); }
            catch(const ModbusException& e) { seen = e.get_exception_type() == ExceptionType::ServerDeviceBusy; }
            catch(...) {}
            break;
        default: // the same object
            auto ep = std::make_exception_ptr(std::out_of_range("far"));
            try { db.execute_transaction([&](IDatabase&) { std::rethrow_exception(ep); }); }
            catch(const std::out_of_range& e) { seen = std::current_exception() == ep; }
            catch(...) {}
        }
        if(!seen) violation("memdb-transaction-throw", "what the transaction threw did not reach the caller");
        Gate g;
        std::thread th([&] { Op o; o.kind = Op::READ; o.table = COIL; o.addr = 0; o.qty = 1; perform(db, o); g.arrive(); });
        if(!g.wait(1, WATCHDOG_S)) { violation("memdb-transaction-throw", "the database is blocked after a transaction threw", true); write_report(); fflush(nullptr); _exit(1); }
        th.join();
        count("memdb_throws");
    }
}

// ---- large stores: long blocks of addresses with holes between them ----

struct Blocks
{
    std::vector<std::pair<unsigned, unsigned>> blocks; // first and last address
    std::vector<unsigned> order;                       // in the order in which they are added
    Blocks(Rng& r, unsigned most)
    {
        unsigned a = r.chance(1, 2) ? 0 : (unsigned)r.below(3000);
        static const unsigned SIZES[] = {1, 2, 7, 8, 9, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769};
        while(a < 65536 && order.size() < most)
        {
            unsigned n = r.chance(1, 3) ? 1 + (unsigned)r.below(6000) : SIZES[r.below(r.chance(1, 6) ? 26 : 20)];
            unsigned last = std::min(65535u, a + n - 1);
            blocks.push_back({a, last});
            for(unsigned i = a; i <= last; ++i) order.push_back(i);
            a = last + 2 + (r.chance(2, 3) ? 0 : (unsigned)r.below(r.chance(1, 2) ? 300 : 20000));
        }
        if(r.chance(1, 2) && blocks.back().second < 65535) // the last addresses there are
        {
            unsigned n = (unsigned)r.below(std::min(65535u - blocks.back().second, 700u));
            blocks.push_back({65535 - n, 65535});
            for(unsigned i = 65535 - n; i < 65536; ++i) order.push_back(i);
        }
        switch(r.below(4))
        {
        case 0: break;
        case 1: std::reverse(order.begin(), order.end()); break;
        case 2: std::rotate(order.begin(), order.begin() + (long)r.below(order.size()), order.end()); break;
        default: for(size_t i = order.size() - 1; i > 0; --i) std::swap(order[i], order[r.below(i + 1)]);
        }
    }
    // a range that lies in one block, touches its ends, or goes a little beyond them
    void range(Rng& r, unsigned& a, size_t& n) const
    {
        auto& b = blocks[r.below(blocks.size())];
        unsigned size = b.second - b.first + 1;
        unsigned lo = r.chance(1, 2) ? b.first : b.first + (unsigned)r.below(size);
        unsigned hi = r.chance(1, 2) ? b.second : lo + (unsigned)r.below(b.second - lo + 1);
        a = lo;
        n = hi - lo + 1;
        switch(r.below(8))
        {
        case 0: ++n; break;
        case 1: if(a) { --a; ++n; } break;
        case 2: n += 2 + r.below(300); break;
        case 3: { auto& c = blocks[r.below(blocks.size())]; if(c.second >= a) n = c.second - a + 1; break; }
        case 4: if(r.chance(1, 4)) n += 65536; break;
        default: break;
        }
    }
    unsigned near(Rng& r) const
    {
        auto& b = blocks[r.below(blocks.size())];
        switch(r.below(4))
        {
        case 0: return b.first ? b.first - 1 : b.first;
        case 1: return b.second < 65535 ? b.second + 1 : b.second;
        case 2: return b.first + (unsigned)r.below(b.second - b.first + 1);
        default: return r.u16();
        }
    }
};

template <class T> void big_store(Rng& r, const char* name)
{
    Blocks blocks(r, r.chance(1, 5) ? 60000 : 9000);
    SingleTypeDatabase<T> db;
    std::vector<T> val(65536);
    std::vector<bool> present(65536);
    std::vector<unsigned> next_hole(65537); // first absent address at or after
    auto refresh = [&] {
        next_hole[65536] = 65536;
        for(unsigned a = 65536; a-- > 0;) next_hole[a] = present[a] ? next_hole[a + 1] : a;
    };
    auto valid = [&](unsigned a, size_t n) { return a + n <= next_hole[a]; };
    std::string trace = std::string(name) + " blocks";
    for(size_t i = 0; i < blocks.blocks.size() && i < 12; ++i) trace += " " + std::to_string(blocks.blocks[i].first) + "-" + std::to_string(blocks.blocks[i].second);
    trace += ":";
    // queries while the store grows
    unsigned probes = 0;
    for(unsigned a : blocks.order)
    {
        T v = rnd<T>(r);
        if(!db.add_value((Address)a, v)) violation(std::string(name) + "-add", trace + " adding " + std::to_string(a) + " failed");
        val[a] = v;
        present[a] = true;
        if(r.chance(1, 1000) && ++probes < 30)
        {
            refresh();
            unsigned x;
            size_t n;
            blocks.range(r, x, n);
            if(db.is_valid_range((Address)x, n) != valid(x, n)) violation(std::string(name) + "-valid-range", trace + " while growing: " + std::to_string(x) + "+" + std::to_string(n));
            count(std::string(name) + "_ops");
        }
    }
    refresh();
    unsigned a = 0;
    size_t n = 0;
    uint64_t h = fnv(trace);
    for(int i = 0; i < 250; ++i)
    {
        if(i == 0 || !r.chance(1, 4)) blocks.range(r, a, n); // sometimes the same again
        unsigned op = (unsigned)r.below(6);
        char b[64];
        snprintf(b, sizeof b, " %u@%u+%zu", op, a, n);
        if(trace.size() < 900) trace += b;
        h = fnv(b, strlen(b), h);
        const bool want = valid(a, n);
        if(op == 0)
        {
            if(db.is_valid_range((Address)a, n) != want) violation(std::string(name) + "-valid-range", trace + (want ? " refused" : " accepted"));
        }
        else if(op == 1 || op == 2)
        {
            std::vector<T> v(n), before;
            for(size_t k = 0; k < n; ++k) v[k] = rnd<T>(r);
            before = v;
            if(want) for(size_t k = 0; k < n; ++k) before[k] = val[a + k];
            bool got = db.get_values((Address)a, v);
            if(got != want) violation(std::string(name) + "-get-range", trace + (got ? " accepted" : " refused"));
            else if(v != before) violation(std::string(name) + "-get-range", trace + (want ? " returned other values" : " failed but changed the output"));
        }
        else if(op == 3 || op == 4)
        {
            std::vector<T> v(n);
            for(size_t k = 0; k < n; ++k) v[k] = rnd<T>(r);
            if(want) for(size_t k = 0; k < n; ++k) val[a + k] = v[k];
            bool got = db.set_values((Address)a, v);
            if(got != want) violation(std::string(name) + "-set-range", trace + (got ? " accepted" : " refused"));
        }
        else
        {
            unsigned x = blocks.near(r);
            T v = rnd<T>(r), out = v;
            bool was = present[x];
            if(db.is_valid((Address)x) != was || db.get_value((Address)x, out) != was || out != (was ? val[x] : v)) violation(std::string(name) + "-get", trace + " address " + std::to_string(x));
            if(r.chance(1, 2))
            {
                if(db.set_value((Address)x, v) != was) violation(std::string(name) + "-set", trace + " address " + std::to_string(x));
                if(was) val[x] = v;
            }
            else if(was || r.chance(1, 6)) // fills a hole, so that two blocks may join
            {
                if(db.add_value((Address)x, v) == was) violation(std::string(name) + "-add", trace + " address " + std::to_string(x));
                if(!was) { val[x] = v; present[x] = true; refresh(); }
            }
        }
        count(std::string(name) + "_ops");
        if(ctx().violations > 20) return;
        if(i % 80 == 79)
            for(unsigned x = 0; x < 65536; ++x)
            {
                T out = T(1);
                bool ok = db.get_value((Address)x, out);
                if(ok != present[x] || out != (ok ? val[x] : T(1)))
                {
                    violation(std::string(name) + "-state", trace + ": address " + std::to_string(x) + " differs from the model");
                    return;
                }
            }
    }
    distinct(h);
    sample(trace);
}

void s_bigdb()
{
    Rng r(ctx().seed);
    long n = ctx().cases(5, 80);
    for(long i = 0; i < n && ctx().violations < 20; ++i)
    {
        big_store<bool>(r, "bits");
        big_store<uint16_t>(r, "registers");
    }
}

// The database with large tables, of different shapes, and requests of all sizes.
void s_memdb_big()
{
    Rng r(ctx().seed);
    long n = ctx().cases(2, 40);
    for(long i = 0; i < n; ++i)
    {
        auto dbp = std::make_shared<InMemoryDatabase>();
        auto& db = *dbp;
        Tables t;
        std::vector<Blocks> shape;
        std::string trace;
        uint64_t h = 0;
        for(int tb = 0; tb < 4; ++tb)
        {
            shape.emplace_back(r, 6000u);
            for(unsigned a : shape.back().order)
            {
                Op o;
                o.kind = Op::ADD;
                o.table = tb;
                o.addr = a;
                o.values = {val_for(r, tb)};
                perform(db, o);
                if(!apply(t, o)) violation("memdb-add", "adding a fresh value: " + o.str());
            }
        }
        for(int k = 0; k < 500; ++k)
        {
            Op o;
            o.table = (int)r.below(4);
            unsigned a;
            size_t q;
            shape[(size_t)(r.chance(1, 6) ? r.below(4) : (uint64_t)o.table)].range(r, a, q);
            q = std::min<size_t>(q, 65535);
            if(r.chance(2, 3)) q = 1 + r.below(std::min<size_t>(q, 2000));
            o.addr = a;
            unsigned kind = (unsigned)r.below(10);
            if(kind < 4) { o.kind = Op::READ; o.qty = (unsigned)q; }
            else if(kind < 7)
            {
                o.kind = Op::WRITEN;
                o.table = r.chance(1, 2) ? COIL : HOLDING;
                if(r.chance(1, 2)) { shape[(size_t)o.table].range(r, a, q); o.addr = a; q = std::min<size_t>(q, 65535); }
                for(size_t j = 0; j < q; ++j) o.values.push_back(val_for(r, o.table));
            }
            else if(kind < 8) { o.kind = Op::ADD; o.addr = shape[(size_t)o.table].near(r); o.values = {val_for(r, o.table)}; }
            else if(kind < 9) { o.kind = Op::WRITE1; o.table = r.chance(1, 2) ? COIL : HOLDING; o.addr = shape[(size_t)o.table].near(r); o.values = {val_for(r, o.table)}; }
            else
            {
                // a transaction which copies, counts and changes many values
                o.kind = Op::TXN;
                o.table = 0;
                unsigned m = 1 + (unsigned)r.below(r.chance(1, 8) ? 1500 : 40);
                for(unsigned j = 0; j < m; ++j)
                {
                    Op s;
                    s.kind = r.chance(1, 2) ? Op::GET : Op::SET;
                    s.table = (int)r.below(4);
                    s.addr = shape[(size_t)s.table].near(r);
                    if(s.kind == Op::SET) s.values = {val_for(r, s.table)};
                    o.sub.push_back(s);
                }
            }
            perform(db, o);
            std::string d = op_key(o) + "@" + std::to_string(o.addr) + "+" + std::to_string(o.kind == Op::READ ? o.qty : o.kind == Op::TXN ? o.sub.size() : o.values.size());
            if(trace.size() < 600) trace += d + " ";
            h = fnv(d.data(), d.size(), h ? h : 1469598103934665603ull);
            count("memdb_" + op_key(o));
            if(!o.bad.empty()) violation("memdb-" + op_key(o), o.bad + ": " + d);
            if(!apply(t, o))
            {
                violation("memdb-" + op_key(o), std::string("answered ") + (o.ok ? "ok" : "no") + " or other values for " + d + " on large tables, after " + trace);
                return;
            }
        }
        // everything that is stored, in one transaction
        Op all;
        all.kind = Op::TXN;
        for(int tb = 0; tb < 4; ++tb)
            for(unsigned a = 0; a < 65536; ++a)
            {
                Op s;
                s.kind = Op::GET;
                s.table = tb;
                s.addr = a;
                all.sub.push_back(s);
            }
        perform(db, all);
        for(auto& s : all.sub)
            if(!apply(t, s)) { violation("memdb-state", "at the end " + s.str() + " after " + trace); return; }
        distinct(h);
        sample(trace);
    }
}

// =====================================================================================
// InMemoryDatabase, several threads: every history is linearizable
// =====================================================================================

struct Ev
{
    Op op;
    uint64_t inv = 0, res = 0;
};

// Wing and Gong's search with memoisation. Threads' operations are sequences.
struct Lin
{
    std::vector<std::vector<Ev>>& h;
    std::set<std::pair<std::vector<uint8_t>, uint64_t>> seen;
    uint64_t states = 0;
    explicit Lin(std::vector<std::vector<Ev>>& hh) : h(hh) {}
    static uint64_t hash(const Tables& t)
    {
        uint64_t x = 7;
        for(size_t k = 0; k < 4; ++k)
            for(auto& p : t[k]) { uint64_t w = (k << 40) ^ ((uint64_t)p.first << 17) ^ p.second; x = fnv(&w, sizeof w, x); }
        return x;
    }
    bool go(std::vector<uint8_t>& pos, const Tables& t)
    {
        ++states;
        bool done = true;
        uint64_t min_res = ~0ull;
        for(size_t i = 0; i < h.size(); ++i)
            if(pos[i] < h[i].size()) { done = false; min_res = std::min(min_res, h[i][pos[i]].res); }
        if(done) return true;
        if(!seen.insert({pos, hash(t)}).second) return false;
        for(size_t i = 0; i < h.size(); ++i)
        {
            if(pos[i] >= h[i].size() || h[i][pos[i]].inv > min_res) continue;
            Tables n = t;
            if(!apply(n, h[i][pos[i]].op)) continue;
            ++pos[i];
            if(go(pos, n)) return true;
            --pos[i];
        }
        return false;
    }
};

void s_memdb_lin()
{
    Rng r(ctx().seed);
    long n = ctx().cases(500, 8000);
    std::atomic<uint64_t> clock{0};
    uint64_t overlaps = 0;
    for(long c = 0; c < n; ++c)
    {
        auto dbp = std::make_shared<InMemoryDatabase>();
        auto& db = *dbp;
        Tables t0;
        unsigned base = r.chance(1, 4) ? 65532 : 10;
        for(int tb = 0; tb < 4; ++tb)
            for(unsigned a = base; a < base + 4; ++a)
                if(r.chance(3, 4))
                {
                    Op o;
                    o.kind = Op::ADD;
                    o.table = tb;
                    o.addr = a;
                    o.values = {0};
                    perform(db, o);
                    apply(t0, o);
                }
        unsigned nt = 2 + (unsigned)r.below(3);
        std::vector<std::vector<Ev>> hist(nt);
        unsigned focus = (unsigned)r.below(5); // one table gets most of the operations
        for(auto& th : hist)
        {
            unsigned k = 3 + (unsigned)r.below(5);
            for(unsigned i = 0; i < k; ++i)
            {
                Ev e;
                e.op = random_op(r, base, 4, true, 4);
                if(focus < 4)
                {
                    if(r.chance(3, 4) && !(e.op.kind == Op::WRITE1 || e.op.kind == Op::WRITEN) && e.op.kind != Op::TXN)
                    {
                        e.op.table = (int)focus;
                        if(e.op.kind == Op::ADD) e.op.values = {val_for(r, (int)focus)};
                    }
                    for(auto& s : e.op.sub) if(r.chance(3, 4)) { s.table = (int)focus; if(s.kind == Op::SET) s.values = {val_for(r, (int)focus)}; }
                }
                th.push_back(e);
            }
        }
        std::atomic<unsigned> ready{0};
        std::vector<std::thread> ts;
        std::atomic<int> in_txn{0};
        uint64_t seed = r.next();
        for(unsigned i = 0; i < nt; ++i)
            ts.emplace_back([&, i] {
                Rng q(seed * 31 + i);
                auto pause = [&] {
                    switch(q.below(6))
                    {
                    case 0: std::this_thread::sleep_for(std::chrono::microseconds(q.below(150))); break;
                    case 1: case 2: std::this_thread::yield(); break;
                    case 3: for(volatile int k = 0; k < 200; k = k + 1) {} break;
                    default: break;
                    }
                };
                ++ready;
                while(ready < nt) std::this_thread::yield();
                for(auto& e : hist[i])
                {
                    pause();
                    e.inv = clock.fetch_add(1);
                    perform(db, e.op, [&] {
                        if(in_txn.fetch_add(1) != 0) violation("memdb-transactions-overlap", "two transactions ran at the same time");
                        pause();
                        in_txn.fetch_sub(1);
                    });
                    e.res = clock.fetch_add(1);
                }
            });
        for(auto& t : ts) t.join();
        // final state, read sequentially, closes the history
        std::vector<Ev> fin;
        for(int tb = 0; tb < 4; ++tb)
            for(unsigned a = base; a < base + 4; ++a)
            {
                Ev e;
                e.op.kind = Op::TXN;
                Op s;
                s.kind = Op::GET;
                s.table = tb;
                s.addr = a;
                e.op.sub = {s};
                e.inv = clock.fetch_add(1);
                perform(db, e.op);
                e.res = clock.fetch_add(1);
                fin.push_back(e);
            }
        hist.push_back(fin);
        uint64_t shape = 0;
        for(size_t i = 0; i < nt; ++i)
            for(auto& e : hist[i])
            {
                if(!e.op.bad.empty()) violation("memdb-" + op_key(e.op), e.op.bad + ": " + e.op.str());
                uint64_t w[3] = {e.inv, e.res, i};
                shape = fnv(w, sizeof w, shape ^ fnv(e.op.str()));
                for(size_t j = i + 1; j < nt; ++j)
                    for(auto& f : hist[j]) if(e.inv < f.res && f.inv < e.res) ++overlaps;
                count("lin_ops");
            }
        Lin lin(hist);
        std::vector<uint8_t> pos(hist.size(), 0);
        bool ok = lin.go(pos, t0);
        count("lin_histories");
        count("lin_states", lin.states);
        distinct(shape);
        if(!ok || c < 2)
        {
            std::ostringstream o;
            for(size_t i = 0; i < nt; ++i)
                for(auto& e : hist[i]) o << "T" << i << "[" << e.inv << "," << e.res << "]" << e.op.str() << " ";
            o << "final: ";
            for(auto& e : fin) o << e.op.str() << " ";
            if(!ok) violation("memdb-not-linearizable", "no order of the operations explains the results: " + o.str());
            else sample(o.str());
        }
    }
    count("lin_overlapping_pairs", overlaps);
    if(n > 50 && overlaps == 0) harness_error("no two operations ever overlapped");
}

// Blocks which are only ever written as a whole are never seen half written.
void s_memdb_torn()
{
    Rng r(ctx().seed);
    auto dbp = std::make_shared<InMemoryDatabase>();
    auto& db = *dbp;
    for(unsigned a = 0; a < 2000; ++a) { db.add_coil((Address)a, false); db.add_discrete_input((Address)a, false); }
    for(unsigned a = 0; a < 130; ++a) { db.add_holding_register((Address)a, 0); db.add_input_register((Address)a, 0); }
    std::atomic<bool> stop{false};
    std::atomic<uint64_t> reads{0}, writes{0}, txns{0}, changes{0};
    double secs = ctx().budget ? (double)ctx().budget / 1000 : ctx().thorough() ? 25 : 2.5;
    std::vector<std::thread> ts;
    uint64_t seed = r.next();
    for(int i = 0; i < 2; ++i)
        ts.emplace_back([&, i] {
            Rng q(seed + (unsigned)i);
            while(!stop)
            {
                uint16_t v = q.u16();
                Op o;
                unsigned k = (unsigned)q.below(3);
                if(k == 0)
                {
                    o.kind = Op::WRITEN;
                    o.table = HOLDING;
                    o.values.assign(123, v);
                    perform(db, o);
                }
                else if(k == 1)
                {
                    o.kind = Op::WRITEN;
                    o.table = COIL;
                    o.values.assign(1968, v & 1);
                    perform(db, o);
                }
                else
                {
                    // a transaction moves all tables together
                    db.execute_transaction([&](IDatabase& d) {
                        for(unsigned a = 0; a < 123; ++a)
                        {
                            d.set_holding_register((Address)a, v);
                            d.set_input_register((Address)a, v);
                            if(a == 60 && q.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(50));
                        }
                        for(unsigned a = 0; a < 1968; ++a) d.set_coil((Address)a, v & 1);
                        for(unsigned a = 0; a < 1968; ++a) d.set_discrete_input((Address)a, v & 1);
                    });
                    ++txns;
                }
                ++writes;
                if(q.chance(1, 3)) std::this_thread::yield();
            }
        });
    for(int i = 0; i < 4; ++i)
        ts.emplace_back([&, i] {
            Rng q(seed + 100 + (unsigned)i);
            uint16_t last = 0;
            while(!stop)
            {
                Op o;
                o.kind = Op::READ;
                o.table = (int)q.below(4);
                o.qty = o.table == COIL || o.table == DISCRETE ? 1968 : 123;
                perform(db, o);
                if(!o.ok || o.out.size() != o.qty) { violation("memdb-torn-read", "a read of existing values failed: " + o.str()); continue; }
                for(auto v : o.out) if(v != o.out[0]) { violation("memdb-torn-read", "a block that is always written as a whole was read half written: " + op_key(o)); break; }
                if(o.out[0] != last) { last = o.out[0]; ++changes; }
                if(q.chance(1, 3))
                    db.execute_transaction([&](IDatabase& d) {
                        uint16_t first = 0, w = 0;
                        d.get_input_register(0, first);
                        for(unsigned a = 1; a < 123; ++a)
                        {
                            d.get_input_register((Address)a, w);
                            if(w != first) { violation("memdb-torn-transaction", "a transaction saw another one half done"); break; }
                            if(a == 60) std::this_thread::yield();
                        }
                        ++txns;
                    });
                ++reads;
            }
        });
    // values are added all the while
    ts.emplace_back([&] {
        Rng q(seed + 999);
        unsigned a = 3000;
        while(!stop && a < 60000)
        {
            bool ok = db.add_coil((Address)a, true) && db.add_discrete_input((Address)a, true) && db.add_holding_register((Address)a, 1) && db.add_input_register((Address)a, 1);
            if(!ok) violation("memdb-add", "adding a fresh value failed");
            ++a;
            if(q.chance(1, 8)) std::this_thread::sleep_for(std::chrono::microseconds(100));
        }
    });
    std::this_thread::sleep_for(std::chrono::microseconds((int64_t)(secs * 1e6)));
    stop = true;
    for(auto& t : ts) t.join();
    count("torn_reads", reads);
    count("torn_writes", writes);
    count("torn_transactions", txns);
    count("torn_changes_seen", changes);
    // exactly one of the threads that add the same address wins, and its value stays
    for(int k = 0; k < (ctx().thorough() ? 2000 : 200); ++k)
    {
        std::atomic<int> wins{0}, winner{-1};
        std::atomic<unsigned> ready{0};
        int tb = (int)r.below(4);
        auto d2 = std::make_shared<InMemoryDatabase>();
        std::vector<std::thread> as;
        for(int i = 0; i < 4; ++i)
            as.emplace_back([&, i] {
                ++ready;
                while(ready < 4) {}
                Op o;
                o.kind = Op::ADD;
                o.table = tb;
                o.addr = 5;
                o.values = {(uint16_t)(tb < 2 ? i & 1 : i + 10)};
                perform(*d2, o);
                if(o.ok) { ++wins; winner = o.values[0]; }
            });
        for(auto& a : as) a.join();
        Op g;
        g.kind = Op::READ;
        g.table = tb;
        g.addr = 5;
        g.qty = 1;
        perform(*d2, g);
        if(wins != 1 || !g.ok || g.out[0] != winner) violation("memdb-add-race", "of four adds of one address " + std::to_string(wins.load()) + " succeeded, stored " + g.str());
        count("add_races");
        distinct(r.next());
    }
}

// A transaction takes its time: whatever is called meanwhile waits until it is over.
void s_memdb_long()
{
    Rng r(ctx().seed);
    const int rounds = ctx().thorough() ? 6 : 2;
    for(int round = 0; round < rounds; ++round)
    {
        auto dbp = std::make_shared<InMemoryDatabase>();
        auto& db = *dbp;
        for(unsigned a = 0; a < 40; ++a) { db.add_coil((Address)a, false); db.add_discrete_input((Address)a, false); db.add_holding_register((Address)a, 0); db.add_input_register((Address)a, 0); }
        const bool throws = r.chance(1, 3);
        const auto hold = std::chrono::milliseconds(ctx().thorough() ? 400 + r.below(round == 0 ? 11000 : 3000) : 300 + 900 * (uint64_t)round + r.below(400));
        std::atomic<bool> inside{false}, over{false};
        std::mutex mx; // also makes what the transaction saw visible
        std::vector<std::string> early;
        std::vector<std::thread> ts;
        std::vector<Op> ops;
        for(int k = 0; k < 4 + 4 + 2 + 2 + 3; ++k)
        {
            Op o;
            o.addr = (unsigned)r.below(20);
            if(k < 4) { o.kind = Op::ADD; o.table = k; o.addr = 100; o.values = {1}; }
            else if(k < 8) { o.kind = Op::READ; o.table = k - 4; o.qty = 1 + (unsigned)r.below(20); }
            else if(k < 10) { o.kind = Op::WRITE1; o.table = k == 8 ? COIL : HOLDING; o.values = {1}; }
            else if(k < 12) { o.kind = Op::WRITEN; o.table = k == 10 ? COIL : HOLDING; o.values.assign(1 + r.below(20), 1); }
            else
            {
                o.kind = Op::TXN;
                Op g;
                g.kind = k == 12 ? Op::GET : Op::SET;
                g.table = (int)r.below(4);
                g.values = {1};
                o.sub = {g};
            }
            ops.push_back(o);
        }
        std::atomic<unsigned> started{0};
        auto run = [&](size_t i, unsigned delay_ms) {
            while(!inside) std::this_thread::yield();
            std::this_thread::sleep_for(std::chrono::milliseconds(delay_ms));
            bool before = inside && !over;
            ++started;
            perform(db, ops[i]);
            // it began within the transaction and ended before it: so it took effect while the transaction ran
            if(before && !over) { std::lock_guard<std::mutex> l(mx); early.push_back(ops[i].str()); }
        };
        for(size_t i = 0; i < ops.size(); ++i) ts.emplace_back(run, i, (unsigned)r.below(i % 2 ? 3 : 150));
        bool changed = false, caught = false;
        auto look = [&](IDatabase& d) {
            uint64_t h = 0;
            for(int tb = 0; tb < 4; ++tb)
                for(unsigned a = 0; a < 110; ++a)
                {
                    Op g;
                    g.kind = Op::GET;
                    g.table = tb;
                    g.addr = a;
                    perform_sub(d, g);
                    h = h * 1099511628211ull + (g.ok ? g.out[0] + 1u : 0u);
                }
            return h;
        };
        const auto t0 = std::chrono::steady_clock::now();
        try
        {
            db.execute_transaction([&](IDatabase& d) {
                uint64_t h = look(d);
                inside = true;
                while(std::chrono::steady_clock::now() - t0 < hold)
                {
                    std::this_thread::sleep_for(std::chrono::milliseconds(20));
                    if(look(d) != h) { changed = true; break; }
                }
                over = true;
                if(throws) throw BaseError{7};
            });
        }
        catch(const BaseError&) { caught = true; }
        if(caught != throws) violation("memdb-transaction-throw", "what the transaction threw did not reach the caller");
        for(auto& t : ts) t.join();
        count("long_transactions");
        count("long_waiting", started);
        if(changed) violation("memdb-long-transaction", "values changed while a transaction of " + std::to_string(hold.count()) + " ms ran");
        for(auto& e : early) { violation("memdb-long-transaction", "took effect while a transaction of " + std::to_string(hold.count()) + " ms ran: " + e); break; }
        distinct(r.next());
    }
    sample("one transaction of up to seconds, with every kind of operation called meanwhile");
}

} // namespace

int main(int argc, char** argv)
{
    return run_main(argc, argv,
                    {{"idents", s_idents},
                     {"exctype", s_exctype},
                     {"singledb", s_singledb},
                     {"bigdb", s_bigdb},
                     {"memdb", s_memdb},
                     {"memdb_big", s_memdb_big},
                     {"memdb_lin", s_memdb_lin},
                     {"memdb_torn", s_memdb_torn},
                     {"memdb_long", s_memdb_long}});
}
