#ifndef VERIF_SHIM_TOOLS_LOGGING_H_
#define VERIF_SHIM_TOOLS_LOGGING_H_
#include <cstdlib>
#include <iostream>
#include <sstream>
#ifdef ERROR
#undef ERROR
#endif
namespace tflite {
namespace logging {
struct LoggingWrapper {
  enum class LogSeverity : int { VERBOSE = 0, INFO = 1, WARN = 2, ERROR = 3, FATAL = 4 };
  LoggingWrapper(LogSeverity s, bool log = true) : s_(s), log_(log) {}
  std::stringstream& Stream() { return st_; }
  ~LoggingWrapper() {
    if (!log_) return;
    last_severity() = (int)s_;
    if (s_ == LogSeverity::FATAL) {
      std::cerr << "FATAL: " << st_.str() << std::endl;
      std::abort();
    }
  }
  static int& last_severity() {
    static thread_local int v = -1;
    return v;
  }
  std::stringstream st_;
  LogSeverity s_;
  bool log_;
};
}  // namespace logging
}  // namespace tflite
#define TFLITE_LOG(severity)                                            \
  ::tflite::logging::LoggingWrapper(                                    \
      ::tflite::logging::LoggingWrapper::LogSeverity::severity)         \
      .Stream()
#define TFLITE_MAY_LOG(severity, should_log)                            \
  ::tflite::logging::LoggingWrapper(                                    \
      ::tflite::logging::LoggingWrapper::LogSeverity::severity,         \
      (should_log))                                                     \
      .Stream()
#define TFLITE_TOOLS_CHECK(condition) TFLITE_MAY_LOG(FATAL, (condition) ? false : true)
#endif
