#pragma once
namespace absl {
namespace log_internal {
inline bool IsInitialized() { return true; }
}
}
