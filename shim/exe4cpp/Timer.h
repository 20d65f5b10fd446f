#ifndef EXE4CPP_TIMER_H
#define EXE4CPP_TIMER_H

#include "exe4cpp/ITimer.h"

#include <memory>

namespace exe4cpp
{

// Owning handle; cancelling empties it.
class Timer
{
public:
    Timer() = default;
    Timer(std::nullptr_t) {}
    Timer(std::shared_ptr<ITimer> timer) : m_timer(std::move(timer)) {}

    bool cancel()
    {
        if(!m_timer) return false;
        m_timer->cancel();
        m_timer.reset();
        return true;
    }

    bool is_active() const { return static_cast<bool>(m_timer); }
    explicit operator bool() const { return is_active(); }

    steady_time_t expires_at() const
    {
        return m_timer ? m_timer->expires_at() : steady_time_t::max();
    }

private:
    std::shared_ptr<ITimer> m_timer;
};

}
#endif
