#pragma once

#include "absl/log/log.h"

// Same semantics as Abseil: each operand is evaluated exactly once.
#define CHECK(condition)                                     \
  (__builtin_expect(static_cast<bool>(condition), 1))        \
      ? (void)0                                              \
      : ::principia_verif::Voidify() &&                      \
            PRINCIPIA_VERIF_STREAM(FATAL) << "Check failed: " #condition " "
#define QCHECK(condition) CHECK(condition)

namespace principia_verif {
template<typename L, typename R>
[[gnu::noinline, gnu::cold]] std::string OpMessage(char const* text,
                                                   L const& l,
                                                   R const& r) {
  return std::string("Check failed: ") + text + " (" + Show(l) + " vs. " +
         Show(r) + ") ";
}
#define PRINCIPIA_VERIF_OP(Name, op)                                       \
  template<typename L, typename R>                                         \
  inline std::string* Name##Impl(L const& l, R const& r, char const* text) { \
    if (l op r) [[likely]] {                                               \
      return nullptr;                                                      \
    }                                                                      \
    return new std::string(OpMessage(text, l, r));                         \
  }
PRINCIPIA_VERIF_OP(EQ, ==)
PRINCIPIA_VERIF_OP(NE, !=)
PRINCIPIA_VERIF_OP(LT, <)
PRINCIPIA_VERIF_OP(LE, <=)
PRINCIPIA_VERIF_OP(GT, >)
PRINCIPIA_VERIF_OP(GE, >=)
#undef PRINCIPIA_VERIF_OP
inline std::string* OKImpl(absl::Status const& s, char const* text) {
  return s.ok() ? nullptr
                : new std::string(std::string("Check failed: ") + text +
                                  " is OK (" + s.ToString() + ") ");
}
}  // namespace principia_verif

#define PRINCIPIA_VERIF_CHECK_OP(Name, op, a, b)                            \
  while (std::string* const principia_verif_s =                             \
             ::principia_verif::Name##Impl((a), (b), #a " " #op " " #b))    \
  PRINCIPIA_VERIF_STREAM(FATAL) << *principia_verif_s
#define CHECK_EQ(a, b) PRINCIPIA_VERIF_CHECK_OP(EQ, ==, a, b)
#define CHECK_NE(a, b) PRINCIPIA_VERIF_CHECK_OP(NE, !=, a, b)
#define CHECK_LT(a, b) PRINCIPIA_VERIF_CHECK_OP(LT, <, a, b)
#define CHECK_LE(a, b) PRINCIPIA_VERIF_CHECK_OP(LE, <=, a, b)
#define CHECK_GT(a, b) PRINCIPIA_VERIF_CHECK_OP(GT, >, a, b)
#define CHECK_GE(a, b) PRINCIPIA_VERIF_CHECK_OP(GE, >=, a, b)
#define CHECK_OK(s)                                                        \
  while (std::string* const principia_verif_s = ::principia_verif::OKImpl( \
             ::principia_verif::AsStatus(s), #s))                          \
  PRINCIPIA_VERIF_STREAM(FATAL) << *principia_verif_s

#ifdef NDEBUG
#define DCHECK(c) while (false) CHECK(c)
#define DCHECK_EQ(a, b) while (false) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) while (false) CHECK_NE(a, b)
#define DCHECK_LT(a, b) while (false) CHECK_LT(a, b)
#define DCHECK_LE(a, b) while (false) CHECK_LE(a, b)
#define DCHECK_GT(a, b) while (false) CHECK_GT(a, b)
#define DCHECK_GE(a, b) while (false) CHECK_GE(a, b)
#define DCHECK_OK(s) while (false) CHECK_OK(s)
#else
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_OK(s) CHECK_OK(s)
#endif
