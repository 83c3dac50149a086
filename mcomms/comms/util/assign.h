#pragma once
#include <utility>
#include <iterator>
namespace comms { namespace util {
namespace mc {
template <typename T, typename I> auto assignImpl(T& c, I from, I to, int) -> decltype(c.assign(from, to), void()) { c.assign(from, to); }
}
template <typename T, typename I> void assign(T& c, I from, I to) { mc::assignImpl(c, from, to, 0); }
}}
