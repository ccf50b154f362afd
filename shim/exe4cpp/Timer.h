#ifndef SHIM_EXE4CPP_TIMER_H
#define SHIM_EXE4CPP_TIMER_H
#include <memory>
#include "exe4cpp/Typedefs.h"
namespace exe4cpp
{
class ITimer
{
public:
    virtual ~ITimer() = default;
    virtual void cancel() = 0;
    virtual steady_time_t expires_at() = 0;
};
class Timer final
{
public:
    Timer() = default;
    Timer(std::shared_ptr<ITimer> impl) : m_impl(std::move(impl)) {}
    Timer(std::nullptr_t) {}
    void cancel() { if(m_impl) { m_impl->cancel(); m_impl.reset(); } }
    steady_time_t expires_at() { return m_impl ? m_impl->expires_at() : steady_time_t::max(); }
private:
    std::shared_ptr<ITimer> m_impl;
};
} // namespace exe4cpp
#endif
