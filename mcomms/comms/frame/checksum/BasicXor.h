#pragma once
#include <cstdint>
#include <cstddef>
namespace comms { namespace frame { namespace checksum {
template <typename TResult = std::uint8_t>
class BasicXor
{
public:
    template <typename TIter> TResult operator()(TIter& iter, std::size_t len) const
    {
        TResult r = 0;
        for (std::size_t i = 0U; i < len; ++i) { r = static_cast<TResult>(r ^ static_cast<std::uint8_t>(*iter)); ++iter; }
        return r;
    }
};
}}}
