#pragma once
#include <cstddef>
#include <vector>
#include <algorithm>
namespace comms { namespace util {
template <typename T> class ArrayView
{
public:
    using value_type = T; using size_type = std::size_t; using const_iterator = const T*; using iterator = const T*;
    using const_reference = const T&; using reference = const T&; using pointer = const T*; using const_pointer = const T*;
    ArrayView() = default;
    ArrayView(const T* d, std::size_t n) : m_d(d), m_n(n) {}
    ArrayView(const T* from, const T* to) : m_d(from), m_n(static_cast<std::size_t>(to - from)) {}
    template <std::size_t N> ArrayView(const T (&d)[N]) : m_d(d), m_n(N) {}
    ArrayView(const std::vector<T>& v) : m_d(v.data()), m_n(v.size()) {}
    const T* begin() const { return m_d; } const T* end() const { return m_d + m_n; }
    const T* cbegin() const { return m_d; } const T* cend() const { return m_d + m_n; }
    const T* data() const { return m_d; }
    std::size_t size() const { return m_n; } std::size_t length() const { return m_n; } bool empty() const { return m_n == 0U; }
    std::size_t max_size() const { return static_cast<std::size_t>(-1); }
    void clear() { m_n = 0U; }
    const T& operator[](std::size_t i) const { return m_d[i]; }
    const T& back() const { return m_d[m_n - 1U]; } const T& front() const { return m_d[0]; }
    template <typename I> void assign(I from, I to) { m_n = static_cast<std::size_t>(to - from); m_d = (m_n == 0U) ? nullptr : reinterpret_cast<const T*>(&(*from)); }
private:
    const T* m_d = nullptr; std::size_t m_n = 0U;
};
template <typename T> bool operator==(const ArrayView<T>& a, const ArrayView<T>& b) { return (a.size() == b.size()) && std::equal(a.begin(), a.end(), b.begin()); }
template <typename T> bool operator!=(const ArrayView<T>& a, const ArrayView<T>& b) { return !(a == b); }
template <typename T> bool operator<(const ArrayView<T>& a, const ArrayView<T>& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
}}
