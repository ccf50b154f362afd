#ifndef SHIM_EXE4CPP_STRANDEXECUTOR_H
#define SHIM_EXE4CPP_STRANDEXECUTOR_H
#include <memory>
#include <asio.hpp>
#include "exe4cpp/IExecutor.h"
namespace exe4cpp
{
class StrandExecutor final : public IExecutor, public std::enable_shared_from_this<StrandExecutor>
{
    struct AsioTimer final : ITimer
    {
        explicit AsioTimer(asio::io_service& s) : timer(s) {}
        void cancel() override { timer.cancel(); }
        steady_time_t expires_at() override { return timer.expires_at(); }
        asio::basic_waitable_timer<std::chrono::steady_clock> timer;
    };
public:
    explicit StrandExecutor(const std::shared_ptr<asio::io_service>& io_service) : m_io_service(io_service), m_strand(*io_service) {}
    Timer start(const duration_t& d, const action_t& a) override { return start(get_time() + d, a); }
    Timer start(const steady_time_t& t, const action_t& a) override
    {
        auto timer = std::make_shared<AsioTimer>(*m_io_service);
        timer->timer.expires_at(t);
        timer->timer.async_wait(m_strand.wrap([timer, a, self = shared_from_this()](const std::error_code& ec) { if(!ec) a(); }));
        return Timer(timer);
    }
    void post(const action_t& a) override { m_strand.post([a, self = shared_from_this()]() { a(); }); }
    steady_time_t get_time() override { return std::chrono::steady_clock::now(); }
    template <typename handler_t> auto wrap(const handler_t& handler) { return m_strand.wrap(handler); }
    std::shared_ptr<asio::io_service> get_context() const { return m_io_service; }
private:
    std::shared_ptr<asio::io_service> m_io_service;
    asio::io_service::strand m_strand;
};
} // namespace exe4cpp
#endif
