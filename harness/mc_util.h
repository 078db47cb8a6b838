#pragma once
#include <map>
#include <set>
#include <string>
#include <vector>
#include "mc/mc.h"

namespace mcu {
// True iff an event with this tag (and `a`, unless -1) was logged.
inline int Count(int const tag, std::int64_t const a = -1) {
  int n = 0;
  for (int i = 0; i < mc::LogSize(); ++i) {
    auto const e = mc::LogAt(i);
    n += e.tag == tag && (a == -1 || e.a == a);
  }
  return n;
}
inline bool Logged(int const tag, std::int64_t const a = -1) {
  return Count(tag, a) > 0;
}
inline int IndexOf(int const tag, std::int64_t const a = -1) {
  for (int i = 0; i < mc::LogSize(); ++i) {
    auto const e = mc::LogAt(i);
    if (e.tag == tag && (a == -1 || e.a == a)) { return i; }
  }
  return -1;
}
inline void Await(int const tag, std::int64_t const a = -1) {
  mc::BlockUntil([=] { return Logged(tag, a); });
}
// The tags of the log, as a string, for outcomes.
inline std::string Trace() {
  std::string s;
  for (int i = 0; i < mc::LogSize(); ++i) {
    auto const e = mc::LogAt(i);
    s += std::to_string(e.tag) + ":" + std::to_string(e.a) + " ";
  }
  return s;
}
// The largest number of simultaneously open (tag open, tag close) intervals.
inline int MaxConcurrency(int const open, int const close) {
  int n = 0, max = 0;
  for (int i = 0; i < mc::LogSize(); ++i) {
    auto const e = mc::LogAt(i);
    if (e.tag == open) { max = std::max(max, ++n); }
    if (e.tag == close) { --n; }
  }
  return max;
}
}  // namespace mcu
