#pragma once
#include "absl/base/log_severity.h"
#include "absl/strings/string_view.h"
#include "absl/time/time.h"
#include <ostream>
namespace absl {
class LogEntry {
 public:
  absl::LogSeverity log_severity() const { return severity_; }
  absl::Time timestamp() const { return time_; }
  absl::string_view stacktrace() const { return stacktrace_; }
  absl::string_view text_message_with_prefix_and_newline() const { return text_; }
  absl::LogSeverity severity_ = absl::LogSeverity::kInfo;
  absl::Time time_;
  absl::string_view stacktrace_;
  absl::string_view text_;
  friend void PrintTo(LogEntry const& e, std::ostream* o) { *o << std::string(e.text_); }
};
}  // namespace absl
