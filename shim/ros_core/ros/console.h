#pragma once
#include <shim/base.h>
namespace shim {
inline int logSink(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline int logSink(const char* f, ...) { (void)f; point(0); return 0; }
}
namespace ros { namespace console { namespace levels { enum Level { Debug, Info, Warn, Error, Fatal, Count }; }
inline bool set_logger_level(const std::string&, levels::Level) { return true; }
inline void notifyLoggerLevelsChanged() {} } }
#define ROSCONSOLE_DEFAULT_NAME "ros"
// arguments are evaluated (not at debug level, which is off by default), nothing is written
#define SHIM_LOG_(...) do { ::shim::logSink(__VA_ARGS__); } while (0)
#define SHIM_LOGS_(x) do { std::ostringstream ss_; ss_ << x; ::shim::point(0); } while (0)
#define SHIM_NOLOG_(...) do { if (false) ::shim::logSink(__VA_ARGS__); } while (0)
#define SHIM_NOLOGS_(x) do { if (false) { std::ostringstream ss_; ss_ << x; } } while (0)
#define SHIM_LOGC_(c, ...) do { if (c) SHIM_LOG_(__VA_ARGS__); } while (0)
#define SHIM_LOGN_(n, ...) do { (void)(n); SHIM_LOG_(__VA_ARGS__); } while (0)
#define SHIM_LOGSN_(n, x) do { (void)(n); SHIM_LOGS_(x); } while (0)
#define ROS_DEBUG(...) SHIM_NOLOG_(__VA_ARGS__)
#define ROS_INFO(...) SHIM_LOG_(__VA_ARGS__)
#define ROS_WARN(...) SHIM_LOG_(__VA_ARGS__)
#define ROS_ERROR(...) SHIM_LOG_(__VA_ARGS__)
#define ROS_FATAL(...) SHIM_LOG_(__VA_ARGS__)
#define ROS_DEBUG_ONCE(...) SHIM_NOLOG_(__VA_ARGS__)
#define ROS_INFO_ONCE(...) SHIM_LOG_(__VA_ARGS__)
#define ROS_WARN_ONCE(...) SHIM_LOG_(__VA_ARGS__)
#define ROS_ERROR_ONCE(...) SHIM_LOG_(__VA_ARGS__)
#define ROS_DEBUG_COND(c, ...) SHIM_NOLOG_(__VA_ARGS__)
#define ROS_INFO_COND(...) SHIM_LOGC_(__VA_ARGS__)
#define ROS_WARN_COND(...) SHIM_LOGC_(__VA_ARGS__)
#define ROS_ERROR_COND(...) SHIM_LOGC_(__VA_ARGS__)
#define ROS_DEBUG_THROTTLE(n, ...) SHIM_NOLOG_(__VA_ARGS__)
#define ROS_INFO_THROTTLE(...) SHIM_LOGN_(__VA_ARGS__)
#define ROS_WARN_THROTTLE(...) SHIM_LOGN_(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(...) SHIM_LOGN_(__VA_ARGS__)
#define ROS_DEBUG_NAMED(n, ...) SHIM_NOLOG_(__VA_ARGS__)
#define ROS_INFO_NAMED(...) SHIM_LOGN_(__VA_ARGS__)
#define ROS_WARN_NAMED(...) SHIM_LOGN_(__VA_ARGS__)
#define ROS_ERROR_NAMED(...) SHIM_LOGN_(__VA_ARGS__)
#define ROS_DEBUG_STREAM(x) SHIM_NOLOGS_(x)
#define ROS_INFO_STREAM(x) SHIM_LOGS_(x)
#define ROS_WARN_STREAM(x) SHIM_LOGS_(x)
#define ROS_ERROR_STREAM(x) SHIM_LOGS_(x)
#define ROS_FATAL_STREAM(x) SHIM_LOGS_(x)
#define ROS_DEBUG_STREAM_ONCE(x) SHIM_NOLOGS_(x)
#define ROS_INFO_STREAM_ONCE(x) SHIM_LOGS_(x)
#define ROS_WARN_STREAM_ONCE(x) SHIM_LOGS_(x)
#define ROS_ERROR_STREAM_ONCE(x) SHIM_LOGS_(x)
#define ROS_INFO_STREAM_THROTTLE(n, x) SHIM_LOGSN_(n, x)
#define ROS_WARN_STREAM_THROTTLE(n, x) SHIM_LOGSN_(n, x)
#define ROS_ERROR_STREAM_THROTTLE(n, x) SHIM_LOGSN_(n, x)
#define ROS_ASSERT(c) do { if (!(c)) abort(); } while (0)
#define ROS_ASSERT_MSG(c, ...) do { if (!(c)) abort(); } while (0)
#define ROS_BREAK() abort()
#define NODELET_DEBUG(...) SHIM_NOLOG_(__VA_ARGS__)
#define NODELET_INFO(...) SHIM_LOG_(__VA_ARGS__)
#define NODELET_WARN(...) SHIM_LOG_(__VA_ARGS__)
#define NODELET_ERROR(...) SHIM_LOG_(__VA_ARGS__)
