// Expected<T> against a model of what it holds.
#include "vh.h"

#include <algorithm>
#include <array>
#include <memory>
#include <sstream>
#include <iomanip>
#include <type_traits>
#include <typeinfo>

#include "modbus/Expected.h"
#include "modbus/Ipv4Endpoint.h"
#include "modbus/UnitIdentifier.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/messages/ReadHoldingRegistersResponse.h"
#include "modbus/messages/WriteSingleCoilResponse.h"

using namespace vh;
using namespace modbus;

namespace
{

// =====================================================================================
// Expected<T>
// =====================================================================================

std::atomic<long> g_live{0}, g_bad_life{0}, g_copies{0};

// Counts its own construction and destruction, and knows when it is used while not alive.
struct Tracked
{
    static constexpr uint64_t ALIVE = 0xA11CE5EEDull;
    int v;
    uint64_t mark;
    Tracked* self;
    std::string heavy;
    explicit Tracked(int x = 0) : v(x), mark(ALIVE), self(this), heavy("a string that is long enough for the heap " + std::to_string(x)) { ++g_live; }
    Tracked(const Tracked& o) : v(o.v), mark(ALIVE), self(this), heavy(o.heavy) { o.check(); ++g_live; ++g_copies; }
    Tracked(Tracked&& o) : v(o.v), mark(ALIVE), self(this), heavy(std::move(o.heavy)) { o.check(); ++g_live; }
    Tracked& operator=(const Tracked& o) { check(); o.check(); v = o.v; heavy = o.heavy; return *this; }
    ~Tracked() { check(); mark = 0xDEAD; --g_live; }
    void check() const
    {
        if(mark != ALIVE || self != this) ++g_bad_life;
    }
    bool operator==(const Tracked& o) const { return v == o.v && heavy == o.heavy; }
};
std::atomic<long> g_ex_live{0};
// A polymorphic family of errors, whose objects are counted too.
struct BaseError
{
    int code;
    explicit BaseError(int c) : code(c) { ++g_ex_live; }
    BaseError(const BaseError& o) : code(o.code) { ++g_ex_live; }
    virtual ~BaseError() { --g_ex_live; }
    virtual int what_am_i() const { return 1; }
};
struct DerivedError : BaseError
{
    std::string more = "more text than fits into a small string, for sure";
    explicit DerivedError(int c) : BaseError(c) {}
    int what_am_i() const override { return 2; }
};
struct SideError { int side = 77; virtual ~SideError() = default; };
struct TwoBases : DerivedError, SideError { explicit TwoBases(int c) : DerivedError(c) {} };
struct PlainError { int code; };

template <class T> struct Gen;
template <> struct Gen<int> { static int make(Rng& r) { return (int)r.next(); } };
template <> struct Gen<bool> { static bool make(Rng& r) { return r.chance(1, 2); } };
template <> struct Gen<std::string> { static std::string make(Rng& r) { return std::string(r.below(40), (char)('a' + r.below(26))); } };
template <> struct Gen<Tracked> { static Tracked make(Rng& r) { return Tracked((int)r.below(1000)); } };
template <> struct Gen<ReadHoldingRegistersResponse>
{
    static ReadHoldingRegistersResponse make(Rng& r)
    {
        ReadHoldingRegistersResponse x;
        size_t n = r.below(9);
        for(size_t i = 0; i < n; ++i) x.values.push_back(RegisterValue{r.u16(), r.u16()});
        return x;
    }
};
template <> struct Gen<WriteSingleCoilResponse>
{
    static WriteSingleCoilResponse make(Rng& r)
    {
        WriteSingleCoilResponse x;
        x.value.address = r.u16();
        x.value.value = r.chance(1, 2);
        return x;
    }
};
struct alignas(64) Wide
{
    uint64_t a[16];
};
template <> struct Gen<Wide> { static Wide make(Rng& r) { Wide w; for(auto& x : w.a) x = r.next(); return w; } };
bool same(const Wide& a, const Wide& b) { return !memcmp(a.a, b.a, sizeof a.a) && (uintptr_t)&b % 64 == 0; }
bool same(int a, int b) { return a == b; }
bool same(const std::string& a, const std::string& b) { return a == b; }
bool same(const Tracked& a, const Tracked& b) { a.check(); b.check(); return a == b; }
bool same(const WriteSingleCoilResponse& a, const WriteSingleCoilResponse& b) { return a.value.address == b.value.address && a.value.value == b.value.value; }
bool same(const ReadHoldingRegistersResponse& a, const ReadHoldingRegistersResponse& b)
{
    if(a.values.size() != b.values.size()) return false;
    for(size_t i = 0; i < a.values.size(); ++i)
        if(a.values[i].address != b.values[i].address || a.values[i].value != b.values[i].value) return false;
    return true;
}

// A value with a list constructor which accepts itself, as the values of JSON libraries have.
struct Dyn
{
    int n = 0;
    std::vector<Dyn> items;
    Dyn(int x) : n(x) {}
    Dyn(std::initializer_list<Dyn> l) : n(-1), items(l) {}
};
bool same(const Dyn& a, const Dyn& b)
{
    if(a.n != b.n || a.items.size() != b.items.size()) return false;
    for(size_t i = 0; i < a.items.size(); ++i) if(!same(a.items[i], b.items[i])) return false;
    return true;
}
template <> struct Gen<Dyn> { static Dyn make(Rng& r) { Dyn d((int)r.below(100)); for(size_t i = r.below(3); i > 0; --i) d.items.push_back(Dyn((int)r.below(9))); return d; } };
template <> struct Gen<std::vector<std::string>> { static std::vector<std::string> make(Rng& r) { return std::vector<std::string>(r.below(4), "item " + std::to_string(r.below(5))); } };
bool same(const std::vector<std::string>& a, const std::vector<std::string>& b) { return a == b; }
template <> struct Gen<std::shared_ptr<int>> { static std::shared_ptr<int> make(Rng& r) { return r.chance(1, 4) ? nullptr : std::make_shared<int>((int)r.below(100)); } };
bool same(const std::shared_ptr<int>& a, const std::shared_ptr<int>& b) { return a == b; }
template <> struct Gen<const char*> { static const char* make(Rng& r) { static const char* t[] = {"", "a", "text", nullptr}; return t[r.below(4)]; } };
bool same(const char* a, const char* b) { return a == b; }
// A value which is itself an exception type.
template <> struct Gen<std::runtime_error> { static std::runtime_error make(Rng& r) { return std::runtime_error("value " + std::to_string(r.below(100))); } };
bool same(const std::runtime_error& a, const std::runtime_error& b) { return !strcmp(a.what(), b.what()); }
template <> struct Gen<TimeoutException> { static TimeoutException make(Rng&) { return TimeoutException{}; } };
bool same(const TimeoutException& a, const TimeoutException& b) { return a.get_message() == b.get_message(); }
template <> struct Gen<char> { static char make(Rng& r) { return (char)r.u8(); } };
bool same(char a, char b) { return a == b; }

// What an error object looks like from outside.
std::string look(const PlainError& e) { return "plain" + std::to_string(e.code); }
std::string look(const BaseError& e) { return "base" + std::to_string(e.code) + "/" + std::to_string(e.what_am_i()); }
std::string look(const TwoBases& e) { return look(static_cast<const BaseError&>(e)); }
std::string look(const SideError& e) { return "side" + std::to_string(e.side); }
std::string look(const IException& e) { return "msg:" + e.get_message(); }
std::string look(const std::exception& e) { return std::string("std:") + e.what(); }
std::string look(int e) { return "int" + std::to_string(e); }
std::string look(const std::string& e) { return "str" + e; }

const char* const NAMES[] = {"Illegal function", "Illegal data address", "Illegal data value", "Server device failure", "Acknowledge", "Server device busy",
                             "Memory parity error", "Gateway path unavailable", "Gateway target device failed to respond"};
const ExceptionType TYPES[] = {ExceptionType::IllegalFunction, ExceptionType::IllegalDataAddress, ExceptionType::IllegalDataValue,
                               ExceptionType::ServerDeviceFailure, ExceptionType::Acknowledge, ExceptionType::ServerDeviceBusy,
                               ExceptionType::MemoryParityError, ExceptionType::GatewayPathUnavailable, ExceptionType::GatewayTargetDeviceFailedToRespond};
const int CODES[] = {1, 2, 3, 4, 5, 6, 8, 0x0A, 0x0B};

// One model error: how to see it through Expected, independent of Expected.
struct Specimen
{
    std::string name;
    std::exception_ptr ptr;
    // probe name -> expected look ("" = no match)
    std::map<std::string, std::string> want;
};

#define PROBES(X) X(PlainError) X(BaseError) X(DerivedError) X(SideError) X(TwoBases) X(IException) X(ModbusException) X(TimeoutException) X(ConnectionException) \
    X(MalformedModbusRequestException) X(MalformedModbusResponseException) X(std::exception) X(std::runtime_error) X(std::logic_error) X(std::invalid_argument) X(int) X(std::string)

template <class P, class X, bool Is> struct LookAs { static std::string get(const X&) { return ""; } };
template <class P, class X> struct LookAs<P, X, true> { static std::string get(const X& x) { return look(static_cast<const P&>(x)); } };
template <class P, class X> std::string look_as(const X& x)
{
    constexpr bool is = std::is_same<P, X>::value || (std::is_class<P>::value && std::is_class<X>::value && std::is_convertible<const X*, const P*>::value);
    return LookAs<P, X, is>::get(x);
}
template <class X> Specimen specimen(const std::string& name, const X& x)
{
    Specimen s;
    s.name = name;
    s.ptr = std::make_exception_ptr(x);
#define PUT(P) s.want[#P] = look_as<P>(x);
    PROBES(PUT)
#undef PUT
    return s;
}

template <class T, class P> void probe(const char* pname, const Expected<T>& e, const Specimen& s, const std::string& how)
{
    // BaseError is copied out by value: only the base part survives
    const std::string& want = s.want.at(pname);
    bool has = e.template has_exception<P>();
    if(has != !want.empty())
        violation("expected-has-exception", how + ": holding " + s.name + ", has_exception<" + pname + "> is " + (has ? "true" : "false"));
    try
    {
        P got = e.template get_exception<P>();
        if(want.empty()) violation("expected-get-exception", how + ": holding " + s.name + ", get_exception<" + pname + "> returned " + look(got));
        else
        {
            std::string seen = look(got), w = want;
            auto cut = [](std::string& t) { auto p = t.find('/'); if(t.compare(0, 4, "base") == 0 && p != std::string::npos) t.resize(p); };
            cut(seen);
            cut(w);
            if(w.compare(0, 4, "std:") == 0 && std::is_same<P, std::exception>::value) return; // sliced: what() is that of the base
            if(seen != w) violation("expected-get-exception", how + ": holding " + s.name + ", get_exception<" + pname + "> looks like '" + seen + "', not '" + w + "'");
        }
    }
    catch(const std::invalid_argument&)
    {
        if(!want.empty()) violation("expected-get-exception", how + ": holding " + s.name + ", get_exception<" + pname + "> threw invalid_argument");
    }
    catch(...)
    {
        violation("expected-get-exception", how + ": holding " + s.name + ", get_exception<" + pname + "> threw something that is not invalid_argument");
    }
}

template <class T> void check_error(Expected<T>& e, const Specimen& s, const std::string& how)
{
    if(e.is_valid()) { violation("expected-is-valid", how + ": holds " + s.name + " but is_valid()"); return; }
#define DO(P) probe<T, P>(#P, e, s, how);
    PROBES(DO)
#undef DO
    for(int c = 0; c < 2; ++c)
    {
        std::string seen = "nothing";
        try
        {
            if(c) (void)static_cast<const Expected<T>&>(e).get();
            else (void)e.get();
        }
        catch(const BaseError& x) { seen = look(x); }
        catch(const PlainError& x) { seen = look(x); }
        catch(const IException& x) { seen = look(x); }
        catch(const std::exception& x) { seen = look(x); }
        catch(int x) { seen = look(x); }
        catch(const std::string& x) { seen = look(x); }
        catch(...) { seen = "unknown"; }
        bool ok = false;
        for(auto& w : s.want) if(!w.second.empty() && w.second == seen) ok = true;
        if(!ok) violation("expected-get-rethrow", how + ": holding " + s.name + ", get() threw '" + seen + "'");
    }
    try
    {
        auto p = static_cast<const Expected<T>&>(e).get_exception();
        if(!p) violation("expected-exception-ptr", how + ": holding " + s.name + ", get_exception() is null");
        else
        {
            auto again = Expected<int>::from_exception(p);
            for(auto& w : s.want)
                if(w.first == "DerivedError" && again.template has_exception<DerivedError>() != !w.second.empty())
                    violation("expected-exception-ptr", how + ": holding " + s.name + ", get_exception() lost the type");
        }
    }
    catch(...)
    {
        violation("expected-exception-ptr", how + ": holding " + s.name + ", get_exception() threw");
    }
}

template <class T> void check_value(Expected<T>& e, const T& want, const std::string& how)
{
    if(!e.is_valid()) { violation("expected-is-valid", how + ": holds a value but is not valid"); return; }
    const auto& ce = e;
    try
    {
        if(!same(want, e.get()) || !same(want, ce.get())) violation("expected-value", how + ": get() is not the value it was given");
        if(&e.get() != &ce.get()) violation("expected-value", how + ": const and mutable get() disagree");
    }
    catch(...)
    {
        violation("expected-value", how + ": get() threw on a valid value");
    }
    if(e.template has_exception<ModbusException>() || e.template has_exception<std::exception>() || e.template has_exception<IException>() || e.template has_exception<int>())
        violation("expected-has-exception", how + ": a valid value has an exception");
    bool threw = false;
    try { (void)ce.get_exception(); }
    catch(const std::invalid_argument&) { threw = true; }
    catch(...) {}
    if(!threw) violation("expected-exception-ptr", how + ": get_exception() of a valid value did not throw invalid_argument");
    threw = false;
    try { (void)ce.template get_exception<TimeoutException>(); }
    catch(const std::invalid_argument&) { threw = true; }
    catch(...) {}
    if(!threw) violation("expected-get-exception", how + ": get_exception<E>() of a valid value did not throw invalid_argument");
}

// Builds an error both ways: by value and by pointer.
template <class T, class E> std::unique_ptr<Expected<T>> mk_error(Rng& r, const E& e, const std::string& name, Specimen& s)
{
    s = specimen(name, e);
    if(r.chance(1, 3)) return std::unique_ptr<Expected<T>>(new Expected<T>(Expected<T>::from_exception(s.ptr)));
    return std::unique_ptr<Expected<T>>(new Expected<T>(Expected<T>::from_exception(e)));
}
template <class T> std::unique_ptr<Expected<T>> random_error(Rng& r, Specimen& s)
{
    switch(r.below(11))
    {
    case 0: { size_t i = r.below(9); return mk_error<T>(r, ModbusException{TYPES[i]}, "ModbusException", s); }
    case 1: return mk_error<T>(r, TimeoutException{}, "TimeoutException", s);
    case 2: return mk_error<T>(r, ConnectionException{"c" + std::to_string(r.below(100))}, "ConnectionException", s);
    case 3: return mk_error<T>(r, MalformedModbusRequestException{"a malformed request, described at length " + std::to_string(r.below(100))}, "MalformedModbusRequestException", s);
    case 4: return mk_error<T>(r, MalformedModbusResponseException{"mr"}, "MalformedModbusResponseException", s);
    case 5: return mk_error<T>(r, std::runtime_error("rt" + std::to_string(r.below(100))), "runtime_error", s);
    case 6: return mk_error<T>(r, DerivedError((int)r.below(100)), "DerivedError", s);
    case 7: return mk_error<T>(r, TwoBases((int)r.below(100)), "TwoBases", s);
    case 8: return mk_error<T>(r, PlainError{(int)r.below(100)}, "PlainError", s);
    case 9: return mk_error<T>(r, (int)r.below(100), "int", s);
    default: return mk_error<T>(r, std::string("text") + std::to_string(r.below(9)), "string", s);
    }
}

template <class T> void expected_case(Rng& r, const char* tname)
{
    struct Slot
    {
        std::unique_ptr<Expected<T>> e;
        bool valid = false, moved_from = false;
        std::unique_ptr<T> v;
        Specimen s;
    };
    std::vector<Slot> pool(5);
    std::string trace = std::string("Expected<") + tname + ">:";
    uint64_t h = fnv(tname);
    unsigned ops = 10 + (unsigned)r.below(14);
    for(unsigned i = 0; i < ops; ++i)
    {
        size_t a = r.below(pool.size()), b = r.below(pool.size());
        unsigned op = (unsigned)r.below(9);
        char buf[40];
        snprintf(buf, sizeof buf, " %u(%zu,%zu)", op, a, b);
        trace += buf;
        h = fnv(&op, sizeof op, h * 31 + a * 7 + b);
        Slot& d = pool[a];
        Slot& o = pool[b];
        switch(op)
        {
        case 0: // from a value, by copy
        {
            T v = Gen<T>::make(r);
            d.v.reset(new T(v));
            d.e.reset(new Expected<T>(static_cast<const T&>(v)));
            d.valid = true; d.moved_from = false;
            if(!same(v, *d.v)) violation("expected-value", trace + ": constructing by copy changed the source");
            break;
        }
        case 1: // from a value, by move
        {
            T v = Gen<T>::make(r);
            d.v.reset(new T(v));
            long before = g_copies;
            d.e.reset(new Expected<T>(std::move(v)));
            if(g_copies != before) violation("expected-move", trace + ": constructing by move copied the value");
            d.valid = true; d.moved_from = false;
            break;
        }
        case 2: case 3: // an error
            d.e = random_error<T>(r, d.s);
            d.valid = false; d.moved_from = false;
            break;
        case 4: // copy
            if(o.e && !o.moved_from && a != b)
            {
                d.e.reset(new Expected<T>(static_cast<const Expected<T>&>(*o.e)));
                d.valid = o.valid; d.moved_from = false;
                d.v.reset(o.v ? new T(*o.v) : nullptr);
                d.s = o.s;
            }
            break;
        case 5: // move; the source stays destructible
            if(o.e && !o.moved_from && a != b)
            {
                long before = g_copies;
                d.e.reset(new Expected<T>(std::move(*o.e)));
                if(g_copies != before) violation("expected-move", trace + ": moving copied the value");
                d.valid = o.valid; d.moved_from = false;
                d.v.reset(o.v ? new T(*o.v) : nullptr);
                d.s = o.s;
                o.moved_from = true;
                if(o.e->is_valid() != o.valid)
                    violation("expected-is-valid", trace + ": an Expected made from " + (o.valid ? "a value" : "an error") + " is " + (o.valid ? "not valid" : "valid") + " after it was moved from");
                else if(o.valid && r.chance(1, 2))
                {
                    // its value was moved from, and can be replaced like any other
                    T v = Gen<T>::make(r);
                    o.e->get() = v;
                    o.v.reset(new T(v));
                    o.moved_from = false;
                    count("moved_from_reused");
                }
            }
            break;
        case 6: // modify in place through get(): copies must not notice
            if(d.e && d.valid && !d.moved_from)
            {
                T v = Gen<T>::make(r);
                d.e->get() = v;
                d.v.reset(new T(v));
            }
            break;
        case 7: d.e.reset(); d.moved_from = false; break;
        default: // a slice must be refused
        {
            DerivedError x((int)r.below(9));
            const BaseError& as_base = x;
            bool refused = false;
            try { auto e = Expected<T>::from_exception(as_base); }
            catch(const std::invalid_argument&) { refused = true; }
            catch(...) {}
            if(!refused) violation("expected-slicing", trace + ": an error passed as its base class was not refused");
            break;
        }
        }
        for(auto& p : pool)
            if(p.e && !p.moved_from)
            {
                if(p.valid) check_value(*p.e, *p.v, trace);
                else if(i + 3 >= ops || &p == &d) check_error(*p.e, p.s, trace);
            }
        count("expected_ops");
    }
    distinct(h);
    sample(trace);
}

// Errors of unusual types, values which cannot be copied, and an Expected within an Expected.
struct Hidden : private BaseError { explicit Hidden(int c) : BaseError(c) {} };
struct Left : virtual BaseError { explicit Left(int c) : BaseError(c) {} };
struct Right : virtual BaseError { explicit Right(int c) : BaseError(c) {} };
struct Diamond : Left, Right { explicit Diamond(int c) : BaseError(c), Left(c), Right(c) {} };
struct LeftTwice : DerivedError { explicit LeftTwice(int c) : DerivedError(c) {} };
struct RightTwice : DerivedError { explicit RightTwice(int c) : DerivedError(c) {} };
struct Ambiguous : LeftTwice, RightTwice { explicit Ambiguous(int c) : LeftTwice(c), RightTwice(c) {} };
enum class Kind { one, two };

template <class P, class T> void ask(const Expected<T>& e, bool want, const char* what)
{
    bool has = e.template has_exception<P>(), got = false, refused = false;
    try { P p = e.template get_exception<P>(); (void)p; got = true; }
    catch(const std::invalid_argument&) { refused = true; }
    catch(...) {}
    if(has != want || got != want || refused == want) violation("expected-has-exception", std::string(what) + ": answered " + (has ? "yes" : "no") + (got ? ", retrieved" : refused ? ", refused" : ", threw another error"));
    count("expected_ops");
}

struct MoveOnly
{
    std::unique_ptr<Tracked> p;
    explicit MoveOnly(int v) : p(new Tracked(v)) {}
    MoveOnly(MoveOnly&&) = default;
};

void shapes(Rng& r)
{
    {
        Expected<int> inner(5);
        Expected<Expected<int>> value(inner), error(Expected<int>::from_exception(TimeoutException{})), outer(Expected<Expected<int>>::from_exception(ModbusException{TYPES[2]}));
        for(int i = 0; i < 3; ++i)
        {
            Expected<Expected<int>> v(i == 1 ? Expected<Expected<int>>(static_cast<const Expected<Expected<int>>&>(value)) : Expected<Expected<int>>(value));
            Expected<Expected<int>> e(static_cast<const Expected<Expected<int>>&>(error));
            Expected<Expected<int>> m(std::move(e));
            Expected<Expected<int>> o(static_cast<const Expected<Expected<int>>&>(outer));
            if(!v.is_valid() || !v.get().is_valid() || v.get().get() != 5) violation("expected-nested", "an Expected holding a value, within an Expected, is something else");
            if(!m.is_valid() || m.get().is_valid() || !m.get().has_exception<TimeoutException>() || m.has_exception<TimeoutException>()) violation("expected-nested", "an Expected holding an error, within an Expected, is something else");
            if(o.is_valid() || !o.has_exception<ModbusException>()) violation("expected-nested", "an error for a nested Expected is something else");
            v.get().get() = 6;
            if(value.get().get() != 5) violation("expected-nested", "a copy shares the inner value");
            count("expected_ops", 3);
        }
    }
    {
        int c = (int)r.below(1000);
        Expected<MoveOnly> a{MoveOnly(c)};
        Expected<MoveOnly> b(std::move(a));
        std::array<Expected<MoveOnly>, 1> v{{std::move(b)}};
        auto back = Expected<MoveOnly>::from_exception(PlainError{3});
        Expected<MoveOnly> e(std::move(back));
        if(!v[0].is_valid() || !v[0].get().p || v[0].get().p->v != c) violation("expected-move", "a value which can only be moved was lost");
        if(e.is_valid() || !e.has_exception<PlainError>()) violation("expected-move", "an error was lost when it was moved");
        if(!a.is_valid() || a.get().p) violation("expected-move", "the source of a move still holds the value");
        MoveOnly out(std::move(v[0].get()));
        if(!out.p || !v[0].is_valid()) violation("expected-move", "a value could not be moved out");
        count("expected_ops", 4);
    }
    int k = (int)r.below(100);
    auto hidden = Expected<std::string>::from_exception(Hidden(k));
    ask<Hidden>(hidden, true, "an error with a private base, asked for its type");
    ask<BaseError>(hidden, false, "an error with a private base, asked for the base");
    auto diamond = Expected<std::string>::from_exception(Diamond(k));
    ask<Diamond>(diamond, true, "a diamond");
    ask<Left>(diamond, true, "a diamond, asked for its left base");
    ask<Right>(diamond, true, "a diamond, asked for its right base");
    ask<BaseError>(diamond, true, "a diamond, asked for its virtual base");
    ask<DerivedError>(diamond, false, "a diamond, asked for another class");
    if(diamond.get_exception<BaseError>().code != k) violation("expected-get-exception", "the virtual base of an error has another value");
    auto twice = Expected<std::string>::from_exception(Ambiguous(k));
    ask<LeftTwice>(twice, true, "an error with two bases");
    ask<RightTwice>(twice, true, "an error with two bases, the second");
    auto kind = Expected<std::string>::from_exception(Kind::two);
    ask<Kind>(kind, true, "an enumerator");
    ask<int>(kind, false, "an enumerator, asked for int");
    if(kind.get_exception<Kind>() != Kind::two) violation("expected-get-exception", "an enumerator changed");
    auto text = Expected<int>::from_exception((const char*)"text");
    // (retrieving a pointer is left out: clang reads beside an error which is a pointer, thrown again and caught by reference)
    if(!text.has_exception<const char*>()) violation("expected-has-exception", "a text is not an error of its type");
    ask<std::string>(text, false, "a text, asked for a string");
    auto number = Expected<int>::from_exception(3L);
    ask<long>(number, true, "a long");
    ask<int>(number, false, "a long, asked for int");
    ask<double>(number, false, "a long, asked for double");
    auto arg = Expected<int>::from_exception(std::invalid_argument("the error itself"));
    ask<std::out_of_range>(arg, false, "an invalid argument, asked for another");
    if(!arg.has_exception<std::invalid_argument>() || strcmp(arg.get_exception<std::invalid_argument>().what(), "the error itself")) violation("expected-get-exception", "an invalid_argument as error changed");
    // the same, when the value is of the error's type
    Expected<std::runtime_error> rv{std::runtime_error("value")};
    auto re = Expected<std::runtime_error>::from_exception(std::runtime_error("error"));
    ask<std::runtime_error>(rv, false, "a value of an exception type");
    ask<std::runtime_error>(re, true, "an error of the type of the value");
    // the error which is asked for is a copy; the original stays
    auto shared = Expected<int>::from_exception(std::make_shared<int>(k));
    { auto p = shared.get_exception<std::shared_ptr<int>>(); p.reset(); }
    if(*shared.get_exception<std::shared_ptr<int>>() != k) violation("expected-get-exception", "retrieving an error took it away");
    // const, moved into and out of functions
    const Expected<int> ce = Expected<int>::from_exception(DerivedError(k));
    Expected<int> c2 = ce, c3 = std::move(c2);
    ask<DerivedError>(c3, true, "a copy of a constant");
    ask<BaseError>(ce, true, "a constant");
    count("shapes");
}

struct ThrowOnCopy
{
    bool bad;
    std::string text = "a value whose copy fails, with heap storage behind it";
    explicit ThrowOnCopy(bool b) : bad(b) {}
    ThrowOnCopy(const ThrowOnCopy& o) : bad(o.bad), text(o.text) { if(bad) throw std::runtime_error("copy failed"); }
    ThrowOnCopy(ThrowOnCopy&& o) : bad(o.bad), text(std::move(o.text)) {}
};

void s_expected()
{
    Rng r(ctx().seed);
    long n = ctx().cases(44, 1600);
    for(long i = 0; i < n; ++i)
    {
        expected_case<int>(r, "int");
        expected_case<std::string>(r, "string");
        expected_case<Tracked>(r, "Tracked");
        expected_case<Wide>(r, "Wide");
        expected_case<ReadHoldingRegistersResponse>(r, "ReadHoldingRegistersResponse");
        expected_case<WriteSingleCoilResponse>(r, "WriteSingleCoilResponse");
        if(i % 2)
        {
            expected_case<Dyn>(r, "Dyn");
            expected_case<std::vector<std::string>>(r, "vector<string>");
            expected_case<std::runtime_error>(r, "runtime_error");
            expected_case<char>(r, "char");
        }
        else
        {
            expected_case<std::shared_ptr<int>>(r, "shared_ptr<int>");
            expected_case<const char*>(r, "const char*");
            expected_case<TimeoutException>(r, "TimeoutException");
            expected_case<bool>(r, "bool");
        }
        if(g_live != 0) { violation("expected-lifetime", "values alive after every Expected was destroyed: " + std::to_string(g_live.load())); g_live = 0; }
        if(g_ex_live != 0) { violation("expected-error-lifetime", "errors alive after every Expected was destroyed: " + std::to_string(g_ex_live.load())); g_ex_live = 0; }
        if(g_bad_life != 0) { violation("expected-lifetime", "a value was used before its construction or after its destruction"); g_bad_life = 0; }
    }
    for(int i = 0; i < 20; ++i) shapes(r);
    if(g_live != 0 || g_ex_live != 0 || g_bad_life != 0) violation("expected-lifetime", "values or errors were not destroyed exactly once");
    // a copy that fails leaks nothing and leaves the source as it was
    for(int i = 0; i < 50; ++i)
    {
        Expected<ThrowOnCopy> e{ThrowOnCopy(true)};
        bool threw = false;
        try { Expected<ThrowOnCopy> c(static_cast<const Expected<ThrowOnCopy>&>(e)); }
        catch(const std::runtime_error&) { threw = true; }
        if(!threw || !e.is_valid()) violation("expected-copy-failure", "a failing copy was not reported, or changed its source");
        count("failing_copies");
    }
    // returned through several layers, as handlers and sessions do
    for(int i = 0; i < 200; ++i)
    {
        auto f = [&](int k) -> Expected<Tracked> {
            if(k % 3 == 0) return Expected<Tracked>{Tracked(k)};
            if(k % 3 == 1) return Expected<Tracked>::from_exception(ModbusException{TYPES[k % 9]});
            return Expected<Tracked>::from_exception(std::make_exception_ptr(DerivedError(k)));
        };
        std::vector<Expected<Tracked>> v;
        for(int k = 0; k < 20; ++k) v.push_back(f(k));
        for(int k = 0; k < 20; ++k)
        {
            bool ok = k % 3 == 0 ? v[k].is_valid() && v[k].get().v == k
                    : k % 3 == 1 ? v[k].has_exception<ModbusException>() && v[k].get_exception<ModbusException>().get_exception_type() == TYPES[k % 9]
                                 : v[k].has_exception<BaseError>() && v[k].get_exception<DerivedError>().code == k;
            if(!ok) violation("expected-container", "an Expected that was moved by a growing vector changed, index " + std::to_string(k));
            count("expected_ops");
        }
    }
    if(g_live != 0 || g_ex_live != 0 || g_bad_life != 0) violation("expected-lifetime", "values or errors outlived their container");
}

void s_expected_threads()
{
    Rng r(ctx().seed);
    long n = ctx().cases(60, 600);
    for(long i = 0; i < n; ++i)
    {
        Specimen s;
        auto err = random_error<Tracked>(r, s);
        Expected<Tracked> val{Tracked(5)};
        std::vector<std::thread> ts;
        uint64_t seed = r.next();
        for(int t = 0; t < 4; ++t)
            ts.emplace_back([&, t] {
                Rng q(seed + (unsigned)t);
                for(int k = 0; k < 30; ++k)
                {
                    Expected<Tracked> c(static_cast<const Expected<Tracked>&>(*err));
                    Expected<Tracked> m(std::move(c));
                    if(q.chance(1, 10)) check_error(m, s, "shared by threads");
                    else if(m.is_valid()) violation("expected-is-valid", "shared by threads: an error became valid");
                    Expected<Tracked> cv(static_cast<const Expected<Tracked>&>(val));
                    cv.get().v = 9;
                    if(val.get().v != 5) violation("expected-copy-independent", "changing a copy changed the original");
                    count("expected_ops", 2);
                }
            });
        for(auto& t : ts) t.join();
        distinct(seed);
    }
    if(g_live != 0 || g_bad_life != 0) violation("expected-lifetime", "values alive after every Expected was destroyed, threads");
}

} // namespace

int main(int argc, char** argv)
{
    return run_main(argc, argv,
                    {{"expected", s_expected}, {"expected_threads", s_expected_threads}});
}
