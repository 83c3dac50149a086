#pragma once
#include <string>
#include <vector>
#include "comms/Assert.h"
namespace comms { namespace util {
// capacity limited containers (the storage itself is not in-place here)
template <typename T, std::size_t N> class StaticVector : public std::vector<T>
{
    using Base = std::vector<T>;
public:
    using Base::Base;
    using Base::operator=;
    StaticVector() = default;
    static std::size_t mcCap() { return N; }
    std::size_t max_size() const { return N; }
    std::size_t capacity() const { return N; }
    void resize(std::size_t n) { COMMS_ASSERT(n <= N); Base::resize(n); }
    void reserve(std::size_t n) { COMMS_ASSERT(n <= N); Base::reserve(n); }
};
template <std::size_t N> class StaticString : public std::string
{
    using Base = std::string;
public:
    using Base::Base;
    using Base::operator=;
    StaticString() = default;
    static std::size_t mcCap() { return N; }
    std::size_t max_size() const { return N; }
    std::size_t capacity() const { return N; }
    void resize(std::size_t n) { COMMS_ASSERT(n <= N); Base::resize(n); }
};
}}
