#pragma once
#include "absl/base/log_severity.h"
namespace absl {
inline LogSeverityAtLeast principia_verif_stderr_threshold = LogSeverityAtLeast::kError;
inline LogSeverityAtLeast principia_verif_min_log_level = LogSeverityAtLeast::kInfo;
inline int principia_verif_vlog = 0;
inline LogSeverityAtLeast StderrThreshold() { return principia_verif_stderr_threshold; }
inline void SetStderrThreshold(LogSeverityAtLeast s) { principia_verif_stderr_threshold = s; }
inline void SetStderrThreshold(LogSeverity s) { principia_verif_stderr_threshold = static_cast<LogSeverityAtLeast>(s); }
inline LogSeverityAtLeast MinLogLevel() { return principia_verif_min_log_level; }
inline void SetMinLogLevel(LogSeverityAtLeast s) { principia_verif_min_log_level = s; }
inline int SetGlobalVLogLevel(int v) { int o = principia_verif_vlog; principia_verif_vlog = v; return o; }
}
