#ifndef SHIM_EXE4CPP_MOCKEXECUTOR_H
#define SHIM_EXE4CPP_MOCKEXECUTOR_H
#include <algorithm>
#include <deque>
#include <vector>
#include "exe4cpp/IExecutor.h"
namespace exe4cpp
{
// Deterministic executor driven by the test. hold_due: timers that are due keep their action even when they are
// cancelled afterwards (the documented race of a real executor).
class MockExecutor final : public IExecutor, public std::enable_shared_from_this<MockExecutor>
{
    struct MockTimer final : ITimer
    {
        MockTimer(MockExecutor* s, steady_time_t t, action_t a) : source(s), time(t), action(std::move(a)) {}
        void cancel() override { source->cancel(this); }
        steady_time_t expires_at() override { return time; }
        MockExecutor* source; steady_time_t time; action_t action;
    };
public:
    Timer start(const duration_t& d, const action_t& a) override { started.push_back(d); return start(m_time + d, a); }
    Timer start(const steady_time_t& t, const action_t& a) override
    {
        auto timer = std::make_shared<MockTimer>(this, t, a);
        m_timers.push_back(timer);
        return Timer(timer);
    }
    void post(const action_t& a) override { m_queue.push_back(a); }
    steady_time_t get_time() override { return m_time; }
    size_t run_many(size_t max = 1000000) { size_t n = 0; while(n < max && run_one()) ++n; return n; }
    bool run_one()
    {
        check_timers();
        if(m_queue.empty()) return false;
        auto a = m_queue.front(); m_queue.pop_front(); a();
        return true;
    }
    size_t advance_time(duration_t d) { m_time += d; return check_timers(); }
    void add_time(duration_t d) { m_time += d; }
    bool advance_to_next_timer()
    {
        if(m_timers.empty()) return false;
        auto it = std::min_element(m_timers.begin(), m_timers.end(), [](const auto& l, const auto& r) { return l->time < r->time; });
        if((*it)->time < m_time) return false;
        m_time = (*it)->time; return true;
    }
    // Queue the action of every due timer, in order of expiry
    size_t check_timers()
    {
        size_t n = 0;
        for(;;)
        {
            auto it = std::min_element(m_timers.begin(), m_timers.end(), [](const auto& l, const auto& r) { return l->time < r->time; });
            if(it == m_timers.end() || (*it)->time > m_time) return n;
            m_queue.push_back((*it)->action);
            m_timers.erase(it);
            ++n;
        }
    }
    size_t num_active() const { return m_queue.size(); }
    size_t num_pending_timers() const { return m_timers.size(); }
    size_t num_timer_cancel() const { return m_cancelled; }
    std::vector<duration_t> started;
private:
    void cancel(ITimer* t)
    {
        auto it = std::find_if(m_timers.begin(), m_timers.end(), [t](const auto& x) { return x.get() == t; });
        if(it != m_timers.end()) { ++m_cancelled; m_timers.erase(it); }
    }
    size_t m_cancelled = 0;
    steady_time_t m_time{};
    std::deque<action_t> m_queue;
    std::deque<std::shared_ptr<MockTimer>> m_timers;
};
} // namespace exe4cpp
#endif
