// Stand-in for the exe4cpp dependency, which is not available offline: the API /repo uses, nothing more.
#ifndef SHIM_EXE4CPP_TYPEDEFS_H
#define SHIM_EXE4CPP_TYPEDEFS_H
#include <chrono>
#include <functional>
namespace exe4cpp
{
using duration_t = std::chrono::steady_clock::duration;
using steady_time_t = std::chrono::steady_clock::time_point;
using action_t = std::function<void()>;
} // namespace exe4cpp
#endif
