#pragma once
#include <cstring>
#include <string>
#include "comms/util/ArrayView.h"
namespace comms { namespace util {
class StringView : public ArrayView<char>
{
    using Base = ArrayView<char>;
public:
    static const std::size_t npos = static_cast<std::size_t>(-1);
    StringView() = default;
    StringView(const char* s) : Base(s, std::strlen(s)) {}
    StringView(const char* s, std::size_t n) : Base(s, n) {}
    StringView(const std::string& s) : Base(s.data(), s.size()) {}
    operator std::string() const { return std::string(data(), size()); }
};
inline bool operator==(const StringView& a, const StringView& b) { return (a.size() == b.size()) && std::equal(a.begin(), a.end(), b.begin()); }
inline bool operator!=(const StringView& a, const StringView& b) { return !(a == b); }
inline bool operator<(const StringView& a, const StringView& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }
inline bool operator==(const StringView& a, const char* b) { return static_cast<std::string>(a) == b; }
inline bool operator!=(const StringView& a, const char* b) { return !(a == b); }
inline bool operator==(const StringView& a, const std::string& b) { return static_cast<std::string>(a) == b; }
inline bool operator!=(const StringView& a, const std::string& b) { return !(a == b); }
}}
