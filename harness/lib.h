// Adapters between the library's public types and the reference model's.
#ifndef VH_LIB_H
#define VH_LIB_H

#include "modbus/IModbusManager.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/logging/LoggerFactory.h"
#include "modbus/server/db/InMemoryDatabase.h"

#include "ref.h"

#include "spdlog/sinks/base_sink.h"
#include "spdlog/spdlog.h"

namespace lib
{
using namespace modbus;
using std::chrono::milliseconds;
using std::chrono::microseconds;

inline int code_of(ExceptionType t)
{
    switch(t)
    {
    case ExceptionType::IllegalFunction: return 1;
    case ExceptionType::IllegalDataAddress: return 2;
    case ExceptionType::IllegalDataValue: return 3;
    case ExceptionType::ServerDeviceFailure: return 4;
    case ExceptionType::Acknowledge: return 5;
    case ExceptionType::ServerDeviceBusy: return 6;
    case ExceptionType::MemoryParityError: return 8;
    case ExceptionType::GatewayPathUnavailable: return 0x0A;
    case ExceptionType::GatewayTargetDeviceFailedToRespond: return 0x0B;
    default: return -1;
    }
}
inline ExceptionType type_of(int code)
{
    switch(code)
    {
    case 1: return ExceptionType::IllegalFunction;
    case 2: return ExceptionType::IllegalDataAddress;
    case 3: return ExceptionType::IllegalDataValue;
    case 4: return ExceptionType::ServerDeviceFailure;
    case 5: return ExceptionType::Acknowledge;
    case 6: return ExceptionType::ServerDeviceBusy;
    case 8: return ExceptionType::MemoryParityError;
    case 0x0A: return ExceptionType::GatewayPathUnavailable;
    case 0x0B: return ExceptionType::GatewayTargetDeviceFailedToRespond;
    default: return ExceptionType::Unknown;
    }
}
static const int KNOWN_CODES[] = {1, 2, 3, 4, 5, 6, 8, 0x0A, 0x0B};

// ---- library value -> reference value ----
template <class R> void bits_to(const R& r, ref::Rsp& o) { for(auto& v : r.values) o.values.push_back({v.address, (uint16_t)(v.value ? 1 : 0)}); }
template <class R> void regs_to(const R& r, ref::Rsp& o) { for(auto& v : r.values) o.values.push_back({v.address, v.value}); }
inline void to_ref(const ReadCoilsResponse& r, ref::Rsp& o) { bits_to(r, o); }
inline void to_ref(const ReadDiscreteInputsResponse& r, ref::Rsp& o) { bits_to(r, o); }
inline void to_ref(const ReadHoldingRegistersResponse& r, ref::Rsp& o) { regs_to(r, o); }
inline void to_ref(const ReadInputRegistersResponse& r, ref::Rsp& o) { regs_to(r, o); }
inline void to_ref(const WriteSingleCoilResponse& r, ref::Rsp& o) { o.values.push_back({r.value.address, (uint16_t)(r.value.value ? 1 : 0)}); }
inline void to_ref(const WriteSingleRegisterResponse& r, ref::Rsp& o) { o.values.push_back({r.value.address, r.value.value}); }
inline void to_ref(const WriteMultipleCoilsResponse& r, ref::Rsp& o) { o.addr = r.starting_address; o.qty = r.qty_of_coils; }
inline void to_ref(const WriteMultipleRegistersResponse& r, ref::Rsp& o) { o.addr = r.starting_address; o.qty = r.qty_of_registers; }

template <class T> ref::Rsp outcome(const Expected<T>& e)
{
    ref::Rsp o;
    if(e.is_valid())
    {
        to_ref(e.get(), o);
        return o;
    }
    o.kind = ref::Rsp::OTHER;
    int n = 0;
    if(e.template has_exception<ModbusException>())
    {
        ++n;
        o.kind = ref::Rsp::MODBUS_EX;
        o.ex = code_of(e.template get_exception<ModbusException>().get_exception_type());
    }
    if(e.template has_exception<MalformedModbusResponseException>()) { ++n; o.kind = ref::Rsp::MALFORMED; o.text = e.template get_exception<MalformedModbusResponseException>().get_message(); }
    if(e.template has_exception<TimeoutException>()) { ++n; o.kind = ref::Rsp::TIMEOUT; }
    if(e.template has_exception<ConnectionException>()) { ++n; o.kind = ref::Rsp::CONNECTION; o.text = e.template get_exception<ConnectionException>().get_message(); }
    if(e.template has_exception<MalformedModbusRequestException>()) { ++n; o.kind = ref::Rsp::BAD_REQUEST; }
    if(n != 1) { o.kind = ref::Rsp::OTHER; o.text = std::to_string(n) + " exception types match"; }
    return o;
}

// ---- reference request -> library request ----
inline ReadCoilsRequest rc(const ref::Req& q) { ReadCoilsRequest r; r.starting_address = q.addr; r.qty_of_bits = q.qty; return r; }
inline ReadDiscreteInputsRequest rdi(const ref::Req& q) { ReadDiscreteInputsRequest r; r.starting_address = q.addr; r.qty_of_bits = q.qty; return r; }
inline ReadHoldingRegistersRequest rhr(const ref::Req& q) { ReadHoldingRegistersRequest r; r.starting_address = q.addr; r.qty_of_registers = q.qty; return r; }
inline ReadInputRegistersRequest rir(const ref::Req& q) { ReadInputRegistersRequest r; r.starting_address = q.addr; r.qty_of_registers = q.qty; return r; }
inline WriteSingleCoilRequest wsc(const ref::Req& q) { WriteSingleCoilRequest r; r.value.address = q.addr; r.value.value = q.values[0] != 0; return r; }
inline WriteSingleRegisterRequest wsr(const ref::Req& q) { WriteSingleRegisterRequest r; r.value.address = q.addr; r.value.value = q.values[0]; return r; }
inline WriteMultipleCoilsRequest wmc(const ref::Req& q) { WriteMultipleCoilsRequest r; r.starting_address = q.addr; for(auto v : q.values) r.values.push_back(v != 0); return r; }
inline WriteMultipleRegistersRequest wmr(const ref::Req& q) { WriteMultipleRegistersRequest r; r.starting_address = q.addr; r.values = q.values; return r; }

// ---- library request -> reference request ----
inline ref::Req from(const ReadCoilsRequest& r) { ref::Req q; q.fc = 1; q.addr = r.starting_address; q.qty = r.qty_of_bits; return q; }
inline ref::Req from(const ReadDiscreteInputsRequest& r) { ref::Req q; q.fc = 2; q.addr = r.starting_address; q.qty = r.qty_of_bits; return q; }
inline ref::Req from(const ReadHoldingRegistersRequest& r) { ref::Req q; q.fc = 3; q.addr = r.starting_address; q.qty = r.qty_of_registers; return q; }
inline ref::Req from(const ReadInputRegistersRequest& r) { ref::Req q; q.fc = 4; q.addr = r.starting_address; q.qty = r.qty_of_registers; return q; }
inline ref::Req from(const WriteSingleCoilRequest& r) { ref::Req q; q.fc = 5; q.addr = r.value.address; q.values = {(uint16_t)(r.value.value ? 1 : 0)}; return q; }
inline ref::Req from(const WriteSingleRegisterRequest& r) { ref::Req q; q.fc = 6; q.addr = r.value.address; q.values = {r.value.value}; return q; }
inline ref::Req from(const WriteMultipleCoilsRequest& r) { ref::Req q; q.fc = 15; q.addr = r.starting_address; for(bool v : r.values) q.values.push_back(v ? 1 : 0); return q; }
inline ref::Req from(const WriteMultipleRegistersRequest& r) { ref::Req q; q.fc = 16; q.addr = r.starting_address; q.values = r.values; return q; }

using Done = std::function<void(const ref::Rsp&)>;

// Sends through a client session. timeout < 0: the session's default timeout.
template <class T> ResponseHandler<T> handler(Done d) { return [d](const Expected<T>& e) { d(outcome(e)); }; }
template <class Rq, class Rs> void send1(IClientSession& s, const Rq& q, duration_t timeout, Done d)
{
    if(timeout < duration_t::zero()) s.send_request(q, handler<Rs>(d));
    else s.send_request(q, timeout, handler<Rs>(d));
}
inline void send(IClientSession& s, const ref::Req& q, duration_t timeout, Done d)
{
    switch(q.fc)
    {
    case 1: send1<ReadCoilsRequest, ReadCoilsResponse>(s, rc(q), timeout, d); break;
    case 2: send1<ReadDiscreteInputsRequest, ReadDiscreteInputsResponse>(s, rdi(q), timeout, d); break;
    case 3: send1<ReadHoldingRegistersRequest, ReadHoldingRegistersResponse>(s, rhr(q), timeout, d); break;
    case 4: send1<ReadInputRegistersRequest, ReadInputRegistersResponse>(s, rir(q), timeout, d); break;
    case 5: send1<WriteSingleCoilRequest, WriteSingleCoilResponse>(s, wsc(q), timeout, d); break;
    case 6: send1<WriteSingleRegisterRequest, WriteSingleRegisterResponse>(s, wsr(q), timeout, d); break;
    case 15: send1<WriteMultipleCoilsRequest, WriteMultipleCoilsResponse>(s, wmc(q), timeout, d); break;
    case 16: send1<WriteMultipleRegistersRequest, WriteMultipleRegistersResponse>(s, wmr(q), timeout, d); break;
    default: abort();
    }
}
inline std::shared_ptr<IScheduledRequest> schedule(IClientSession& s, const ref::Req& q, duration_t timeout, duration_t freq, Done d)
{
    bool def = timeout < duration_t::zero();
    switch(q.fc)
    {
    case 1: return def ? s.schedule_request(rc(q), freq, handler<ReadCoilsResponse>(d)) : s.schedule_request(rc(q), timeout, freq, handler<ReadCoilsResponse>(d));
    case 2: return def ? s.schedule_request(rdi(q), freq, handler<ReadDiscreteInputsResponse>(d)) : s.schedule_request(rdi(q), timeout, freq, handler<ReadDiscreteInputsResponse>(d));
    case 3: return def ? s.schedule_request(rhr(q), freq, handler<ReadHoldingRegistersResponse>(d)) : s.schedule_request(rhr(q), timeout, freq, handler<ReadHoldingRegistersResponse>(d));
    default: return def ? s.schedule_request(rir(q), freq, handler<ReadInputRegistersResponse>(d)) : s.schedule_request(rir(q), timeout, freq, handler<ReadInputRegistersResponse>(d));
    }
}

// ---- reference response -> what a server session returns ----
inline Expected<ReadCoilsResponse> mk(const ref::Rsp& r, ReadCoilsResponse o) { for(auto& v : r.values) o.values.push_back(SingleBitValue{v.first, v.second != 0}); return Expected<ReadCoilsResponse>{o}; }
inline Expected<ReadDiscreteInputsResponse> mk(const ref::Rsp& r, ReadDiscreteInputsResponse o) { for(auto& v : r.values) o.values.push_back(SingleBitValue{v.first, v.second != 0}); return Expected<ReadDiscreteInputsResponse>{o}; }
inline Expected<ReadHoldingRegistersResponse> mk(const ref::Rsp& r, ReadHoldingRegistersResponse o) { for(auto& v : r.values) o.values.push_back(RegisterValue{v.first, v.second}); return Expected<ReadHoldingRegistersResponse>{o}; }
inline Expected<ReadInputRegistersResponse> mk(const ref::Rsp& r, ReadInputRegistersResponse o) { for(auto& v : r.values) o.values.push_back(RegisterValue{v.first, v.second}); return Expected<ReadInputRegistersResponse>{o}; }
inline Expected<WriteSingleCoilResponse> mk(const ref::Rsp& r, WriteSingleCoilResponse o) { o.value.address = r.values[0].first; o.value.value = r.values[0].second != 0; return Expected<WriteSingleCoilResponse>{o}; }
inline Expected<WriteSingleRegisterResponse> mk(const ref::Rsp& r, WriteSingleRegisterResponse o) { o.value.address = r.values[0].first; o.value.value = r.values[0].second; return Expected<WriteSingleRegisterResponse>{o}; }
inline Expected<WriteMultipleCoilsResponse> mk(const ref::Rsp& r, WriteMultipleCoilsResponse o) { o.starting_address = r.addr; o.qty_of_coils = r.qty; return Expected<WriteMultipleCoilsResponse>{o}; }
inline Expected<WriteMultipleRegistersResponse> mk(const ref::Rsp& r, WriteMultipleRegistersResponse o) { o.starting_address = r.addr; o.qty_of_registers = r.qty; return Expected<WriteMultipleRegistersResponse>{o}; }

// A server session whose answers come from a plan; it records every call.
struct Plan
{
    ref::Rsp rsp;          // VALUE: values; MODBUS_EX: exception code; OTHER: a non-Modbus error
};
// An application's own kind of Modbus exception.
struct OwnModbusException : ModbusException
{
    OwnModbusException(ExceptionType t, const std::string& m) : ModbusException{t}, more{m} {}
    std::string more;
};

class RecSession : public IServerSession
{
public:
    using Planner = std::function<ref::Rsp(uint8_t unit, const ref::Req&)>;
    RecSession(uint8_t unit, Planner p, int tag = 0) : m_unit(unit), m_planner(std::move(p)), m_tag(tag) {}
    void shutdown() override { ++shutdowns; }
    Expected<ReadCoilsResponse> on_request(const ReadCoilsRequest& r) override { return go<ReadCoilsResponse>(from(r)); }
    Expected<ReadDiscreteInputsResponse> on_request(const ReadDiscreteInputsRequest& r) override { return go<ReadDiscreteInputsResponse>(from(r)); }
    Expected<ReadHoldingRegistersResponse> on_request(const ReadHoldingRegistersRequest& r) override { return go<ReadHoldingRegistersResponse>(from(r)); }
    Expected<ReadInputRegistersResponse> on_request(const ReadInputRegistersRequest& r) override { return go<ReadInputRegistersResponse>(from(r)); }
    Expected<WriteSingleCoilResponse> on_request(const WriteSingleCoilRequest& r) override { return go<WriteSingleCoilResponse>(from(r)); }
    Expected<WriteSingleRegisterResponse> on_request(const WriteSingleRegisterRequest& r) override { return go<WriteSingleRegisterResponse>(from(r)); }
    Expected<WriteMultipleCoilsResponse> on_request(const WriteMultipleCoilsRequest& r) override { return go<WriteMultipleCoilsResponse>(from(r)); }
    Expected<WriteMultipleRegistersResponse> on_request(const WriteMultipleRegistersRequest& r) override { return go<WriteMultipleRegistersResponse>(from(r)); }

    std::vector<ref::Req> take_calls()
    {
        std::lock_guard<std::mutex> l(m_mutex);
        std::vector<ref::Req> r;
        r.swap(m_calls);
        return r;
    }
    size_t calls()
    {
        std::lock_guard<std::mutex> l(m_mutex);
        return m_calls.size();
    }
    std::atomic<int> shutdowns{0};
    std::atomic<bool>* busy = nullptr; // serialisation monitor, shared by the sessions of one channel
    std::function<void(const ref::Req&)> on_call;

private:
    // The same exception in the ways in which an application may state it.
    template <class T> Expected<T> modbus_failure(uint8_t ex)
    {
        switch((m_failures++ * 2654435761u >> 16) % 5)
        {
        case 0: return Expected<T>::from_exception(OwnModbusException{type_of(ex), "of the application"});
        case 1: return Expected<T>::from_exception(std::make_exception_ptr(ModbusException{type_of(ex)}));
        case 2: return Expected<T>::from_exception(Expected<int>::from_exception(ModbusException{type_of(ex)}).template get_exception<ModbusException>());
        case 3: try { throw OwnModbusException{type_of(ex), "caught"}; } catch(...) { return Expected<T>::from_exception(std::current_exception()); }
        default: return Expected<T>::from_exception(ModbusException{type_of(ex)});
        }
    }
    // Failures which are not Modbus exceptions.
    template <class T> Expected<T> other_failure()
    {
        switch((m_failures++ * 2654435761u >> 16) % 7)
        {
        case 0: return Expected<T>::from_exception(TimeoutException{});
        case 1: return Expected<T>::from_exception(ConnectionException{"upstream"});
        case 2: return Expected<T>::from_exception(MalformedModbusResponseException{"upstream"});
        case 3: return Expected<T>::from_exception(MalformedModbusRequestException{"upstream"});
        case 4: return Expected<T>::from_exception(std::string("a string"));
        case 5: return Expected<T>::from_exception(type_of(2)); // an exception's type is not an exception
        default: return Expected<T>::from_exception(std::runtime_error("session failure"));
        }
    }
    std::atomic<unsigned> m_failures{0};
    template <class T> Expected<T> go(const ref::Req& q)
    {
        if(busy && busy->exchange(true)) vh::violation("server-callback-overlap", "two callbacks of one server channel ran at the same time: " + q.str());
        {
            std::lock_guard<std::mutex> l(m_mutex);
            m_calls.push_back(q);
        }
        if(on_call) on_call(q);
        auto r = m_planner(m_unit, q);
        if(busy) busy->store(false);
        if(r.kind == ref::Rsp::MODBUS_EX) return modbus_failure<T>(r.ex);
        if(r.kind != ref::Rsp::VALUE) return other_failure<T>();
        return mk(r, T{});
    }
    uint8_t m_unit;
    Planner m_planner;
    int m_tag;
    std::mutex m_mutex;
    std::vector<ref::Req> m_calls;
};

inline std::shared_ptr<Logger> null_logger() { return LoggerFactory::create_null_logger("null"); }

// A sink that counts, so that every log statement is formatted and nothing is printed.
class CountSink : public spdlog::sinks::base_sink<std::mutex>
{
public:
    std::atomic<uint64_t> n{0};
protected:
    void sink_it_(const spdlog::details::log_msg&) override { ++n; }
    void flush_() override {}
};
inline std::shared_ptr<Logger> counting_logger()
{
    auto sink = std::make_shared<CountSink>();
    return LoggerFactory::create_custom_logger(std::make_shared<spdlog::logger>("count", sink), LoggingLevel::Trace);
}

// Destroys a manager; one that does not come to an end is reported.
inline void end_manager(std::unique_ptr<modbus::IModbusManager>& mgr, const char* key)
{
    if(!mgr) return;
    std::mutex m;
    std::condition_variable cv;
    bool ended = false;
    std::thread t([&] {
        std::unique_lock<std::mutex> l(m);
        if(cv.wait_for(l, std::chrono::seconds((int)vh::WATCHDOG_S), [&] { return ended; })) return;
        vh::violation(key, "the destructor of the manager did not return", true);
        fflush(nullptr);
        vh::write_report();
        _exit(1);
    });
    mgr.reset();
    {
        std::lock_guard<std::mutex> l(m);
        ended = true;
    }
    cv.notify_all();
    t.join();
}

} // namespace lib

#endif
