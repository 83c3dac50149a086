#pragma once
#include <cstdint>
#include <cstddef>
namespace comms { namespace frame { namespace checksum {
template <typename T, std::uintmax_t TPoly, std::uintmax_t TInit, std::uintmax_t TXor, bool TReflIn, bool TReflOut>
class Crc
{
    static T refl(T v, unsigned bits)
    {
        T r = 0;
        for (unsigned i = 0U; i < bits; ++i) { if ((v >> i) & 1U) { r = static_cast<T>(r | (static_cast<T>(1) << (bits - 1U - i))); } }
        return r;
    }
public:
    template <typename TIter> T operator()(TIter& iter, std::size_t len) const
    {
        const unsigned w = sizeof(T) * 8U;
        T r = static_cast<T>(TInit);
        for (std::size_t i = 0U; i < len; ++i) {
            T b = static_cast<std::uint8_t>(*iter); ++iter;
            if (TReflIn) { b = refl(b, 8U); }
            r = static_cast<T>(r ^ static_cast<T>(b << (w - 8U)));
            for (unsigned k = 0U; k < 8U; ++k) {
                bool top = ((r >> (w - 1U)) & 1U) != 0U;
                r = static_cast<T>(r << 1U);
                if (top) { r = static_cast<T>(r ^ static_cast<T>(TPoly)); }
            }
        }
        if (TReflOut) { r = refl(r, w); }
        return static_cast<T>(r ^ static_cast<T>(TXor));
    }
};
using Crc_CCITT = Crc<std::uint16_t, 0x1021, 0xffff, 0, false, false>;
using Crc_16 = Crc<std::uint16_t, 0x8005, 0, 0, true, true>;
using Crc_32 = Crc<std::uint32_t, 0x04c11db7, 0xffffffff, 0xffffffff, true, true>;
}}}
