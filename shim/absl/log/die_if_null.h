#pragma once
#include <utility>
#include "absl/log/log.h"
namespace principia_verif {
template<typename T>
T DieIfNull(char const* file, int line, char const* text, T&& t) {
  if (t == nullptr) {
    Die(file, line, std::string("Check failed: ") + text + " != nullptr");
  }
  return std::forward<T>(t);
}
}  // namespace principia_verif
#define ABSL_DIE_IF_NULL(p) \
  ::principia_verif::DieIfNull(__FILE__, __LINE__, #p, (p))
