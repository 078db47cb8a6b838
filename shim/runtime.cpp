// The out-of-line part of the logging stand-in.
#include <cstdio>
#include <cstdlib>
#include "absl/log/log.h"
namespace principia_verif {
void EmitLog(char const* severity, char const* file, int line,
             std::string const& text) {
  std::fprintf(stderr, "%c %s:%d] %s\n", severity[0], file, line, text.c_str());
}
void Die(char const* file, int line, std::string const& text) {
  throw FatalError(std::string(file) + ":" + std::to_string(line) + "] " + text);
}
}  // namespace principia_verif
