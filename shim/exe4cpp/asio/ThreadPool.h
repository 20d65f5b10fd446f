// Stand-in for exe4cpp::ThreadPool; see DESIGN.md "Stand-ins".
#ifndef EXE4CPP_THREADPOOL_H
#define EXE4CPP_THREADPOOL_H

#include "exe4cpp/Typedefs.h"

#include <asio.hpp>

#include <cstdint>
#include <memory>
#include <thread>
#include <vector>

namespace exe4cpp
{

class ThreadPool final
{
public:
    ThreadPool(const std::shared_ptr<asio::io_service>& service, uint32_t concurrency)
        : ThreadPool(service, concurrency, [](uint32_t) {}, [](uint32_t) {}) {}

    ThreadPool(const std::shared_ptr<asio::io_service>& service,
               uint32_t concurrency,
               std::function<void(uint32_t)> on_thread_start,
               std::function<void(uint32_t)> on_thread_exit)
        : m_service(service),
          m_on_thread_start(std::move(on_thread_start)),
          m_on_thread_exit(std::move(on_thread_exit)),
          m_infinite_timer(*service)
    {
        if(concurrency == 0) concurrency = 1;
        m_infinite_timer.expires_at(std::chrono::steady_clock::time_point::max());
        m_infinite_timer.async_wait([](const std::error_code&) {});
        for(uint32_t i = 0; i < concurrency; ++i)
        {
            m_threads.emplace_back(new std::thread([this, i]() {
                m_on_thread_start(i);
                m_service->run();
                m_on_thread_exit(i);
            }));
        }
    }

    ~ThreadPool() { shutdown(); }

    ThreadPool(const ThreadPool&) = delete;
    ThreadPool& operator=(const ThreadPool&) = delete;

    // Returns once no work is left and every thread has exited.
    void shutdown()
    {
        if(m_is_shutdown) return;
        m_is_shutdown = true;
        m_infinite_timer.cancel();
        for(auto& thread : m_threads) thread->join();
    }

private:
    std::shared_ptr<asio::io_service> m_service;
    std::function<void(uint32_t)> m_on_thread_start;
    std::function<void(uint32_t)> m_on_thread_exit;
    bool m_is_shutdown = false;
    asio::basic_waitable_timer<std::chrono::steady_clock> m_infinite_timer;
    std::vector<std::unique_ptr<std::thread>> m_threads;
};

}
#endif
