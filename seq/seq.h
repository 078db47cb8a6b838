// Bounded-exhaustive exploration of sequential code.
//
// A harness body is run once per path of its tree of choices; the engine
// enumerates the tree depth-first and completely.  The body drives the real
// code and compares it, step by step, with a reference model.  Executions run
// in forked workers, so crashes, aborts and hangs of the code under test are
// attributed to the path that caused them, and replayed before being reported.
#pragma once

#include <cstdint>
#include <sstream>
#include <stdexcept>
#include <string>

#include "absl/log/log.h"

namespace seq {

// An explored choice in [0, n).
int Choose(int n);

// An explored choice among the elements of a container or braced list.
template<typename C>
auto const& Pick(C const& c) {
  return c[Choose(static_cast<int>(std::size(c)))];
}
template<typename T, std::size_t n>
T Of(T const (&a)[n]) {
  return a[Choose(static_cast<int>(n))];
}

[[noreturn]] void Fail(std::string const& message);

// Cheap: the message is only built on failure.
template<typename... M>
inline void Check(bool const condition, M const&... m) {
  if (!condition) [[unlikely]] {
    std::ostringstream o;
    o.precision(17);
    ((o << m), ...);
    Fail(o.str());
  }
}
template<typename L, typename R, typename... M>
inline void CheckEq(L const& l, R const& r, M const&... m) {
  if (!(l == r)) [[unlikely]] {
    std::ostringstream o;
    o.precision(17);
    ((o << m), ...);
    o << ": ";
    if constexpr (requires { o << l; }) { o << l; } else { o << "(lhs)"; }
    o << " vs. ";
    if constexpr (requires { o << r; }) { o << r; } else { o << "(rhs)"; }
    Fail(o.str());
  }
}

// For a known finding: if the key is listed in known_findings.txt, a failure is
// recorded and the execution goes on.
bool IsKnown(char const* key);
template<typename... M>
inline void CheckUnlessKnown(char const* const key, bool const condition,
                             M const&... m) {
  if (!condition && !IsKnown(key)) [[unlikely]] {
    Check(false, m...);
  }
}

// Counts a state of the model; `hash` identifies it.
void State(std::uint64_t hash);
void State(std::string_view s);
// Counts operations applied to both the code under test and the model.
void Step(std::int64_t n = 1);
// Appends to the human-readable trace of this execution.
void Note(std::string const& s);
bool Noting();
template<typename... M>
void Notes(M const&... m) {
  if (Noting()) {
    std::ostringstream o;
    o.precision(17);
    ((o << m), ...);
    Note(o.str());
  }
}

// True in the thorough tier.
bool Thorough();

// Abandons an execution that is not interesting (it's not counted).
[[noreturn]] void Prune();

// True iff `f` fails a CHECK (or equivalent) that can be intercepted.
template<typename F>
bool Dies(F const& f) {
  try {
    f();
    return false;
  } catch (::principia_verif::FatalError const&) {
    return true;
  }
}

struct Options {
  // Depth of the choices over which the work is spread among processes.
  int split = 2;
  // Seconds without the completion of an execution that count as a hang.
  int hang_s = 60;
  bool thorough_only = false;
};
struct Registrar {
  Registrar(char const* name, void (*body)(), Options options = Options());
};

}  // namespace seq

#define SEQ_HARNESS(name, ...)                                             \
  static void name##_body();                                              \
  static ::seq::Registrar name##_registrar(#name, &name##_body,           \
                                           ::seq::Options{__VA_ARGS__});  \
  static void name##_body()
