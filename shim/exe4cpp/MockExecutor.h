#ifndef EXE4CPP_MOCKEXECUTOR_H
#define EXE4CPP_MOCKEXECUTOR_H

#include "exe4cpp/IExecutor.h"

#include <deque>
#include <limits>
#include <list>

namespace exe4cpp
{

// Single-threaded executor driven by hand. Expired timers are queued behind the actions
// already posted, as the real one queues them on its strand.
class MockExecutor final : public IExecutor
{
    class MockTimer final : public ITimer
    {
    public:
        MockTimer(MockExecutor* source, steady_time_t time, action_t action)
            : m_source(source), m_time(time), m_action(std::move(action)) {}
        void cancel() override { m_source->cancel(this); }
        steady_time_t expires_at() override { return m_time; }

        MockExecutor* m_source;
        steady_time_t m_time;
        action_t m_action;
    };

public:
    MockExecutor() = default;
    ~MockExecutor() override = default;

    steady_time_t get_time() override { return m_now; }

    Timer start(const duration_t& duration, const action_t& action) override
    {
        return start(m_now + duration, action);
    }

    Timer start(const steady_time_t& expiration, const action_t& action) override
    {
        auto timer = std::make_shared<MockTimer>(this, expiration, action);
        m_timers.push_back(timer);
        return Timer(timer);
    }

    void post(const action_t& action) override { m_posts.push_back(action); }

    bool run_one()
    {
        check_for_expired_timers();
        if(m_posts.empty()) return false;
        auto action = std::move(m_posts.front());
        m_posts.pop_front();
        action();
        return true;
    }

    size_t run_many(size_t maximum = std::numeric_limits<size_t>::max())
    {
        size_t count = 0;
        while(count < maximum && run_one()) ++count;
        return count;
    }

    size_t num_active() const { return m_posts.size(); }
    size_t num_pending_timers() const { return m_timers.size(); }

    size_t advance_time(duration_t duration)
    {
        m_now += duration;
        return check_for_expired_timers();
    }

    steady_time_t next_timer_expiration() const
    {
        auto result = steady_time_t::max();
        for(const auto& timer : m_timers) if(timer->m_time < result) result = timer->m_time;
        return result;
    }

private:
    size_t check_for_expired_timers()
    {
        size_t count = 0;
        while(true)
        {
            auto best = m_timers.end();
            for(auto it = m_timers.begin(); it != m_timers.end(); ++it)
            {
                if((*it)->m_time <= m_now && (best == m_timers.end() || (*it)->m_time < (*best)->m_time)) best = it;
            }
            if(best == m_timers.end()) return count;
            auto timer = *best;
            m_timers.erase(best);
            m_posts.push_back(timer->m_action);
            ++count;
        }
    }

    void cancel(ITimer* timer)
    {
        for(auto it = m_timers.begin(); it != m_timers.end(); ++it)
        {
            if(it->get() == timer)
            {
                m_timers.erase(it);
                return;
            }
        }
    }

    steady_time_t m_now{};
    std::deque<action_t> m_posts;
    std::list<std::shared_ptr<MockTimer>> m_timers;
};

}
#endif
