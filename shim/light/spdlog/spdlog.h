// Light stand-in for spdlog (logging has no effect on any property); used by the exporter and the replay drivers.
#ifndef SHIM_SPDLOG_H
#define SHIM_SPDLOG_H
#include <memory>
#include <string>
#include <vector>
namespace spdlog
{
namespace level { enum level_enum { trace = 0, debug = 1, info = 2, warn = 3, err = 4, critical = 5, off = 6 }; }
namespace sinks { class sink { public: virtual ~sink() = default; }; }
using sink_ptr = std::shared_ptr<sinks::sink>;
class logger
{
public:
    template <typename It> logger(std::string name, It begin, It end) : m_name(std::move(name)), m_sinks(begin, end) {}
    logger(std::string name, sink_ptr s) : m_name(std::move(name)), m_sinks{std::move(s)} {}
    explicit logger(std::string name) : m_name(std::move(name)) {}
    template <typename... A> void trace(const A&...) {}
    template <typename... A> void debug(const A&...) {}
    template <typename... A> void info(const A&...) {}
    template <typename... A> void warn(const A&...) {}
    template <typename... A> void error(const A&...) {}
    template <typename... A> void critical(const A&...) {}
    const std::vector<sink_ptr>& sinks() const { return m_sinks; }
    void set_level(level::level_enum l) { m_level = l; }
    level::level_enum level() const { return m_level; }
    const std::string& name() const { return m_name; }
private:
    std::string m_name;
    std::vector<sink_ptr> m_sinks;
    level::level_enum m_level = level::info;
};
inline std::shared_ptr<logger> stdout_color_mt(const std::string& name) { return std::make_shared<logger>(name); }
} // namespace spdlog
#endif
