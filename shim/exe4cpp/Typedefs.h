// Stand-in for exe4cpp (github.com/automatak/exe4cpp); see DESIGN.md "Stand-ins".
#ifndef EXE4CPP_TYPEDEFS_H
#define EXE4CPP_TYPEDEFS_H

#include <chrono>
#include <functional>

namespace exe4cpp
{
using duration_t = std::chrono::steady_clock::duration;
using steady_time_t = std::chrono::steady_clock::time_point;
using system_time_t = std::chrono::system_clock::time_point;
using action_t = std::function<void()>;
}

#endif
