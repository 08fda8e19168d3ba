// No-op stand-in for spdlog: same call surface, arguments are evaluated, nothing is printed.
#ifndef SPDLOG_STANDIN_H
#define SPDLOG_STANDIN_H
// what the real header brings in transitively
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <locale>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
namespace spdlog {
namespace level {
enum level_enum { trace, debug, info, warn, err, critical, off };
}
template<class... A> inline void trace(const A &...) {}
template<class... A> inline void debug(const A &...) {}
template<class... A> inline void info(const A &...) {}
template<class... A> inline void warn(const A &...) {}
template<class... A> inline void error(const A &...) {}
template<class... A> inline void critical(const A &...) {}
template<class... A> inline void log(level::level_enum, const A &...) {}
inline void set_level(level::level_enum) {}
inline level::level_enum get_level() { return level::off; }
inline bool should_log(level::level_enum) { return false; }
struct logger
{
    template<class... A> void trace(const A &...) {}
    template<class... A> void debug(const A &...) {}
    template<class... A> void info(const A &...) {}
    template<class... A> void warn(const A &...) {}
    template<class... A> void error(const A &...) {}
    template<class... A> void critical(const A &...) {}
    template<class... A> void log(level::level_enum, const A &...) {}
    bool should_log(level::level_enum) const { return false; }
    void flush() {}
};
// one object with static storage: no shared count that the explorer would see
inline logger *default_logger_raw()
{
    static logger l;
    return &l;
}
inline std::shared_ptr<logger> default_logger()
{
    return std::shared_ptr<logger>(std::shared_ptr<logger>(), default_logger_raw());
}
inline std::shared_ptr<logger> get(const std::string &) { return nullptr; }
} // namespace spdlog
#define SPDLOG_TRACE(...) spdlog::trace(__VA_ARGS__)
#define SPDLOG_DEBUG(...) spdlog::debug(__VA_ARGS__)
#define SPDLOG_INFO(...) spdlog::info(__VA_ARGS__)
#define SPDLOG_WARN(...) spdlog::warn(__VA_ARGS__)
#define SPDLOG_ERROR(...) spdlog::error(__VA_ARGS__)
#define SPDLOG_CRITICAL(...) spdlog::critical(__VA_ARGS__)
#endif
