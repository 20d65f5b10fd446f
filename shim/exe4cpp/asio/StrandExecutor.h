// Stand-in for exe4cpp::StrandExecutor; see DESIGN.md "Stand-ins".
// Every posted action and timer is preceded by a call to exe4cpp::perturb(), if the harness
// defines it, to inject scheduling delays.
#ifndef EXE4CPP_STRANDEXECUTOR_H
#define EXE4CPP_STRANDEXECUTOR_H

#include "exe4cpp/IExecutor.h"

#include <asio.hpp>

#include <future>

#include <memory>

namespace exe4cpp
{

__attribute__((weak)) void perturb();
// A harness may define this to let durations pass so many times faster.
__attribute__((weak)) unsigned hurry();
#define EXE4CPP_PERTURB_POINT() do { if(&::exe4cpp::perturb) ::exe4cpp::perturb(); } while(false)

class AsioTimer final : public ITimer
{
public:
    explicit AsioTimer(const std::shared_ptr<asio::io_service>& service) : m_service(service), impl(*service) {}
    void cancel() override
    {
        std::error_code ec;
        impl.cancel(ec);
    }
    steady_time_t expires_at() override { return impl.expires_at(); }

private:
    std::shared_ptr<asio::io_service> m_service; // outlives the timer

public:
    asio::basic_waitable_timer<std::chrono::steady_clock> impl;
};

class StrandExecutor final : public IExecutor, public std::enable_shared_from_this<StrandExecutor>
{
public:
    explicit StrandExecutor(const std::shared_ptr<asio::io_service>& service)
        : m_service(service), m_strand(*service) {}

    static std::shared_ptr<StrandExecutor> create(const std::shared_ptr<asio::io_service>& service)
    {
        return std::make_shared<StrandExecutor>(service);
    }

    std::shared_ptr<StrandExecutor> fork() { return create(m_service); }

    steady_time_t get_time() override { return std::chrono::steady_clock::now(); }

    Timer start(const duration_t& given, const action_t& action) override
    {
        const duration_t duration = &::exe4cpp::hurry ? given / ::exe4cpp::hurry() : given;
        const auto now = std::chrono::steady_clock::now();
        const auto expiration = (steady_time_t::max() - now < duration) ? steady_time_t::max() : now + duration;
        return start(expiration, action);
    }

    Timer start(const steady_time_t& expiration, const action_t& action) override
    {
        auto timer = std::make_shared<AsioTimer>(m_service);
        timer->impl.expires_at(expiration);
        timer->impl.async_wait(m_strand.wrap([timer, action, self = shared_from_this()](const std::error_code& ec) {
            if(!ec)
            {
                EXE4CPP_PERTURB_POINT();
                action();
            }
        }));
        return Timer(timer);
    }

    void post(const action_t& action) override
    {
        m_strand.post([action, self = shared_from_this()]() {
            EXE4CPP_PERTURB_POINT();
            action();
        });
    }

    template <class Handler>
    auto wrap(Handler&& handler)
    {
        return m_strand.wrap(std::forward<Handler>(handler));
    }

    template <class ReturnType>
    ReturnType return_from(const std::function<ReturnType()>& action)
    {
        if(m_strand.running_in_this_thread()) return action();
        std::promise<ReturnType> promise;
        auto future = promise.get_future();
        post([&]() { promise.set_value(action()); });
        return future.get();
    }

    void block_until(const action_t& action)
    {
        return_from<bool>([&]() {
            action();
            return true;
        });
    }

    std::shared_ptr<asio::io_service> get_context() { return m_service; }
    std::shared_ptr<asio::io_service> get_service() { return m_service; }

private:
    std::shared_ptr<asio::io_service> m_service;
    asio::io_service::strand m_strand;
};

}
#endif
