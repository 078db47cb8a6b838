// Stand-in for Abseil's logging library, which does not exist in the installed
// Abseil (20220623).  Used only by the harnesses in /verif.  A fatal message
// throws principia_verif::FatalError so that a harness can report which CHECK
// failed on which execution; other severities are dropped.
#pragma once

#include <cstdint>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>

#include "absl/base/log_severity.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"

namespace principia_verif {

struct FatalError : std::runtime_error {
  using std::runtime_error::runtime_error;
};

// Set to see the non-fatal messages.
inline bool log_to_stderr = false;
void EmitLog(char const* severity, char const* file, int line,
             std::string const& text);
[[noreturn]] void Die(char const* file, int line, std::string const& text);

class LogStream {
 public:
  LogStream(char const* severity, char const* file, int line)
      : severity_(severity), file_(file), line_(line) {}
  ~LogStream() noexcept(false) {
    if (severity_[0] == 'F') {
      Die(file_, line_, out_.str());
    } else if (log_to_stderr) {
      EmitLog(severity_, file_, line_, out_.str());
    }
  }
  template<typename T>
  LogStream& operator<<(T const& t) {
    if constexpr (requires(std::ostream& o) { o << t; }) {
      out_ << t;
    } else if constexpr (requires(std::ostream& o) { o << t.ToString(); }) {
      out_ << t.ToString();
    } else {
      out_ << "<unprintable>";
    }
    return *this;
  }
  LogStream& operator<<(std::ostream& (*m)(std::ostream&)) {
    out_ << m;
    return *this;
  }
  LogStream& operator<<(std::ios_base& (*m)(std::ios_base&)) {
    out_ << m;
    return *this;
  }
  LogStream& stream() { return *this; }
  LogStream& WithVerbosity(int) { return *this; }
  LogStream& NoPrefix() { return *this; }

 private:
  char const* severity_;
  char const* file_;
  int line_;
  std::ostringstream out_;
};

struct Voidify {
  void operator&&(LogStream const&) const {}
};

// A stream that swallows everything without evaluating the formatting.
struct NullStream {
  template<typename T>
  NullStream const& operator<<(T const&) const { return *this; }
  NullStream const& operator<<(std::ostream& (*)(std::ostream&)) const {
    return *this;
  }
};
struct NullVoidify {
  void operator&&(NullStream const&) const {}
};

template<typename T>
std::string Show(T const& t) {
  if constexpr (requires(std::ostream& o) { o << t; }) {
    std::ostringstream o;
    o << t;
    return o.str();
  } else {
    return "<unprintable>";
  }
}

inline absl::Status const& AsStatus(absl::Status const& s) { return s; }
template<typename T>
absl::Status const& AsStatus(absl::StatusOr<T> const& s) { return s.status(); }

}  // namespace principia_verif

#define PRINCIPIA_VERIF_STREAM(severity) \
  ::principia_verif::LogStream(#severity, __FILE__, __LINE__)
#define PRINCIPIA_VERIF_LOG_IF(severity, condition) \
  !(condition) ? (void)0                            \
               : ::principia_verif::Voidify() && PRINCIPIA_VERIF_STREAM(severity)

#define LOG(severity) PRINCIPIA_VERIF_LOG_##severity
// Non-fatal messages evaluate nothing unless asked for.
#define PRINCIPIA_VERIF_LOG_INFO \
  PRINCIPIA_VERIF_LOG_IF(INFO, ::principia_verif::log_to_stderr)
#define PRINCIPIA_VERIF_LOG_WARNING \
  PRINCIPIA_VERIF_LOG_IF(WARNING, ::principia_verif::log_to_stderr)
#define PRINCIPIA_VERIF_LOG_ERROR \
  PRINCIPIA_VERIF_LOG_IF(ERROR, ::principia_verif::log_to_stderr)
#define PRINCIPIA_VERIF_LOG_FATAL PRINCIPIA_VERIF_STREAM(FATAL)
#define PRINCIPIA_VERIF_LOG_QFATAL PRINCIPIA_VERIF_STREAM(FATAL)
#define LOG_IF(severity, condition)                                    \
  PRINCIPIA_VERIF_LOG_IF(severity, (#severity[0] == 'F' ||              \
                                    ::principia_verif::log_to_stderr) && \
                                       (condition))
#define LOG_EVERY_N(severity, n) PRINCIPIA_VERIF_LOG_##severity
#define LOG_FIRST_N(severity, n) PRINCIPIA_VERIF_LOG_##severity
#define LOG_EVERY_N_SEC(severity, n) PRINCIPIA_VERIF_LOG_##severity
#define LOG_IF_EVERY_N(severity, condition, n) LOG_IF(severity, condition)
#define LOG_IF_EVERY_N_SEC(severity, condition, n) LOG_IF(severity, condition)
#define VLOG(n) \
  true ? (void)0 : ::principia_verif::NullVoidify() && ::principia_verif::NullStream()
#define VLOG_IF(n, c) VLOG(n)
#define VLOG_IS_ON(n) false
#ifdef NDEBUG
#define DLOG(severity) \
  true ? (void)0 : ::principia_verif::NullVoidify() && ::principia_verif::NullStream()
#else
#define DLOG(severity) LOG(severity)
#endif

#include "absl/log/check.h"
