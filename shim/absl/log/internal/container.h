#pragma once
#include <ostream>
namespace absl {
namespace log_internal {
template<typename C>
struct VerifLogContainer { C const& c; };
template<typename C>
std::ostream& operator<<(std::ostream& o, VerifLogContainer<C> const&) { return o << "{...}"; }
template<typename C>
VerifLogContainer<C> LogContainer(C const& c) { return {c}; }
}
}
