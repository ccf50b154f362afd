#ifndef SHIM_EXE4CPP_THREADPOOL_H
#define SHIM_EXE4CPP_THREADPOOL_H
#include <memory>
#include <thread>
#include <vector>
#include <asio.hpp>
namespace exe4cpp
{
class ThreadPool final
{
public:
    ThreadPool(const std::shared_ptr<asio::io_service>& io_service, uint32_t concurrency)
        : m_io_service(io_service), m_work(new asio::io_service::work(*io_service)), m_size(concurrency)
    {
        if(concurrency == 0) concurrency = 1;
        for(uint32_t i = 0; i < concurrency; ++i) m_threads.emplace_back([s = io_service] { s->run(); });
    }
    ~ThreadPool() { shutdown(); }
    void shutdown()
    {
        m_work.reset();
        for(auto& t : m_threads) if(t.joinable()) t.join();
        m_threads.clear();
    }
    uint32_t size() const { return m_size; }
private:
    std::shared_ptr<asio::io_service> m_io_service;
    std::unique_ptr<asio::io_service::work> m_work;
    std::vector<std::thread> m_threads;
    uint32_t m_size;
};
} // namespace exe4cpp
#endif
