#pragma once
#include <cmath>
#include "comms/details/base.h"
#include "comms/Field.h"
namespace comms { namespace details {

template <typename T, bool TEnum = std::is_enum<T>::value> struct Underlying { using type = T; };
template <typename T> struct Underlying<T, true> { using type = typename std::underlying_type<T>::type; };
template <std::size_t N> struct UIntFor { using type = std::uint64_t; };
template <> struct UIntFor<1> { using type = std::uint8_t; };
template <> struct UIntFor<2> { using type = std::uint16_t; };
template <> struct UIntFor<3> { using type = std::uint32_t; };
template <> struct UIntFor<4> { using type = std::uint32_t; };

struct NoDefault { struct mcTag; static constexpr std::intmax_t value = 0; };
struct NoFail { static constexpr comms::ErrorStatus value = comms::ErrorStatus::Success; };
struct NoBits { static constexpr std::size_t value = 0U; static constexpr bool signExtend = true; };
struct NoOffset { static constexpr std::intmax_t value = 0; };
struct NoScaling { static constexpr std::intmax_t num = 1; static constexpr std::intmax_t denom = 1; };
struct NoReserved { static constexpr std::uintmax_t mask = 0U; static constexpr std::uintmax_t value = 0U; };
struct NoUnits {};

template <typename T> struct DefFixedLen { static constexpr std::size_t value = sizeof(T); static constexpr bool signExtend = true; };
struct NoVarLen { static constexpr std::size_t minVal = 1U; static constexpr std::size_t maxVal = 1U; };

template <typename TList> struct ValidCheck;
template <typename... T> struct ValidCheck<List<T...> >
{
    template <typename O, typename V>
    static bool one(V v)
    {
        if constexpr (std::is_same<typename O::mcTag, option::def::mc::ValidTag>::value) { return O::mcIn(v); }
        else { static_cast<void>(v); return false; }
    }
    template <typename V> static bool any(V v) { static_cast<void>(v); return (one<T>(v) || ... || false); }
};

template <bool THas> struct ForcedLen { int val = -1; };
template <> struct ForcedLen<false> { };

template <typename TFieldBase, typename T, typename... TOptions>
class NumField : public TFieldBase,
    public VersionHolder<hasOpt<option::def::VersionStorage, Flatten<TOptions...> >()>
{
public:
    using McOpts = Flatten<TOptions...>;
protected:
    using McU = typename Underlying<T>::type;
    using McVerBase = VersionHolder<hasOpt<option::def::VersionStorage, McOpts>()>;
    using McDefault = Find<option::def::mc::DefaultNumValueTag, NoDefault, McOpts>;
    using McFail = Find<option::def::mc::FailOnInvalidTag, NoFail, McOpts>;
    using McFixed = Find<option::def::mc::FixedLengthTag, DefFixedLen<T>, McOpts>;
    using McVar = Find<option::def::mc::VarLengthTag, NoVarLen, McOpts>;
    using McBits = Find<option::def::mc::FixedBitLengthTag, NoBits, McOpts>;
    using McSerOffset = Find<option::def::mc::NumValueSerOffsetTag, NoOffset, McOpts>;
    using McScaling = Find<option::def::mc::ScalingRatioTag, NoScaling, McOpts>;
    static constexpr bool McEmpty = hasOpt<option::def::EmptySerialization, McOpts>();
    static constexpr bool McHasVar = hasTag<option::def::mc::VarLengthTag, McOpts>();
    static constexpr bool McHasFail = hasTag<option::def::mc::FailOnInvalidTag, McOpts>();
    static constexpr bool McFloat = std::is_floating_point<T>::value;
    static constexpr bool McAvail = hasOpt<option::def::AvailableLengthLimit, McOpts>();
    static constexpr bool McSigned = (!McFloat) && std::is_signed<McU>::value;
public:
    using FieldBase = TFieldBase;
    using ValueType = T;
    using VersionType = details::VersionType;
    using ScalingRatio = McScaling;
    using McUnits = Find<option::def::mc::UnitsTag, NoUnits, McOpts>;
    using McIsField = void;
    using Endian = typename std::conditional<hasOpt<option::def::LittleEndian, McOpts>(), option::def::LittleEndian,
        typename std::conditional<hasOpt<option::def::BigEndian, McOpts>(), option::def::BigEndian, typename TFieldBase::Endian>::type>::type;

    NumField() : m_value(mcDefault()) {}
    explicit NumField(ValueType v) : m_value(v) {}

    ValueType& value() { return m_value; }
    const ValueType& value() const { return m_value; }
    const ValueType& getValue() const { return m_value; }
    template <typename U> void setValue(U&& v)
    {
        if constexpr (!hasFixedValue()) { m_value = static_cast<ValueType>(v); }
        else { static_cast<void>(v); }
    }

    static constexpr bool hasFixedValue() { return hasOpt<option::def::FixedValue, McOpts>(); }
    static constexpr bool isVersionDependent() { return hasOpt<option::def::VersionStorage, McOpts>() || hasTag<option::def::mc::HasVersionDependentMembersTag, McOpts>(); }
    static constexpr bool hasNonDefaultRefresh() { return hasOpt<option::def::HasCustomRefresh, McOpts>(); }
    static constexpr bool hasReadNoStatus()
    { return (!McHasVar) && (!McHasFail) && (!McAvail) && (!hasOpt<option::def::HasCustomRead, McOpts>()); }
    static constexpr bool hasWriteNoStatus()
    { return (!McHasVar) && (!McAvail) && (!hasOpt<option::def::HasCustomWrite, McOpts>()); }
    static constexpr std::intmax_t displayOffset()
    { return Find<option::def::mc::DisplayOffsetTag, NoOffset, McOpts>::value; }

    static constexpr ValueType minValue() { return static_cast<ValueType>(std::numeric_limits<McU>::lowest()); }
    static constexpr ValueType maxValue() { return static_cast<ValueType>(std::numeric_limits<McU>::max()); }

    bool setVersion(VersionType v) { return McVerBase::mcSetVersion(v); }
    bool canWrite() const { return true; }
    bool refresh() { return false; }

    bool valid() const
    {
        if constexpr (hasTag<option::def::mc::BitmaskReservedBitsTag, McOpts>()) {
            using R = Find<option::def::mc::BitmaskReservedBitsTag, NoReserved, McOpts>;
            if ((static_cast<std::uintmax_t>(m_value) & R::mask) != (R::value & R::mask)) { return false; }
        }
        if constexpr (hasTag<option::def::mc::ValidTag, McOpts>()) { return ValidCheck<McOpts>::any(m_value); }
        else { return !hasOpt<option::def::InvalidByDefault, McOpts>(); }
    }

    static constexpr std::size_t minLength()
    { return McEmpty ? 0U : (McAvail ? 1U : (McHasVar ? McVar::minVal : mcLen())); }
    static constexpr std::size_t maxLength() { return McEmpty ? 0U : (McHasVar ? McVar::maxVal : mcLen()); }

    std::size_t length() const
    {
        if constexpr (McEmpty) { return 0U; }
        else if constexpr (McAvail) { return mcAvailLen(); }
        else if constexpr (McHasVar) { return mcVarLen(); }
        else { return mcLen(); }
    }

    template <typename TIter> void readNoStatus(TIter& iter)
    {
        if constexpr (!McEmpty) { m_value = mcFromSer(readBytes(iter, mcLen(), mcBig()), mcLen() * 8U); }
        else { static_cast<void>(iter); }
    }
    template <typename TIter> void writeNoStatus(TIter& iter) const
    {
        if constexpr (!McEmpty) { writeBytes(iter, mcToSer(), mcLen(), mcBig()); }
        else { static_cast<void>(iter); }
    }

    template <typename TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        if constexpr (McEmpty) { static_cast<void>(iter); static_cast<void>(len); }
        else if constexpr (McAvail) {
            auto l = minOf(len, mcLen());
            if (l == 0U) { return ErrorStatus::NotEnoughData; }
            m_value = mcFromSer(readBytes(iter, l, mcBig()), l * 8U);
            m_forced.val = static_cast<int>(l);
        }
        else if constexpr (McHasVar) {
            std::uint64_t r = 0U;
            std::size_t cnt = 0U;
            while (true) {
                if (len == 0U) { return ErrorStatus::NotEnoughData; }
                std::uint64_t b = readBytes(iter, 1U, true);
                --len;
                if (mcBig()) { r = (r << 7U) | (b & 0x7fU); }
                else if ((cnt * 7U) < 64U) { r |= (b & 0x7fU) << (cnt * 7U); }
                ++cnt;
                if ((b & 0x80U) == 0U) { break; }
                if (McVar::maxVal <= cnt) { return ErrorStatus::ProtocolError; }
            }
            if (cnt < McVar::minVal) { return ErrorStatus::ProtocolError; }
            m_value = mcFromSer(r, cnt * 7U);
        }
        else {
            if (len < mcLen()) { return ErrorStatus::NotEnoughData; }
            m_value = mcFromSer(readBytes(iter, mcLen(), mcBig()), mcLen() * 8U);
        }
        if constexpr (McHasFail) {
            if (!mcValidForRead()) { return McFail::value; }
        }
        return ErrorStatus::Success;
    }

    template <typename TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    {
        auto l = length();
        if (len < l) { return ErrorStatus::BufferOverflow; }
        if constexpr (McEmpty) { static_cast<void>(iter); }
        else if constexpr (McHasVar) {
            auto s = mcToSer();
            for (std::size_t i = 0U; i < l; ++i) {
                std::size_t g = mcBig() ? (l - i - 1U) : i;
                std::uint64_t b = ((g * 7U) < 64U) ? ((s >> (g * 7U)) & 0x7fU) : 0U;
                if (i + 1U < l) { b |= 0x80U; }
                writeBytes(iter, b, 1U, true);
            }
        }
        else { writeBytes(iter, mcToSer(), l, mcBig()); }
        return ErrorStatus::Success;
    }

    // bitfield member access
    static constexpr std::size_t mcBitLength()
    { return hasTag<option::def::mc::FixedBitLengthTag, McOpts>() ? McBits::value : (mcLen() * 8U); }
    ErrorStatus mcSetBits(std::uint64_t raw)
    {
        m_value = mcFromSer(raw, mcBitLength());
        if constexpr (McHasFail) { if (!mcValidForRead()) { return McFail::value; } }
        return ErrorStatus::Success;
    }
    std::uint64_t mcGetBits() const { return mcToSer() & maskBits(mcBitLength()); }

    // scaling and display
    template <typename TRet> TRet getScaled() const
    { return static_cast<TRet>(static_cast<TRet>(m_value) * static_cast<TRet>(McScaling::num) / static_cast<TRet>(McScaling::denom)); }
    template <typename TRet> TRet scaleAs() const { return getScaled<TRet>(); }
    template <typename U> void setScaled(U&& v)
    { m_value = static_cast<ValueType>((static_cast<double>(v) * static_cast<double>(McScaling::denom)) / static_cast<double>(McScaling::num)); }
    static constexpr bool hasScaling() { return McScaling::num != McScaling::denom; }
    ValueType getDisplayValue() const { return static_cast<ValueType>(m_value + static_cast<ValueType>(displayOffset())); }
    template <typename U> void setDisplayValue(U&& v) { m_value = static_cast<ValueType>(v - static_cast<ValueType>(displayOffset())); }

    bool mcEq(const NumField& o) const { return m_value == o.m_value; }
    bool mcLt(const NumField& o) const { return m_value < o.m_value; }

protected:
    bool mcValidForRead() const { return fullValid<McOpts>(this); }
    static constexpr bool mcBig() { return std::is_same<Endian, option::def::BigEndian>::value; }
    static constexpr std::size_t mcLen()
    { return hasTag<option::def::mc::FixedBitLengthTag, McOpts>() ? ((McBits::value + 7U) / 8U) : McFixed::value; }

    static ValueType mcDefault()
    {
        if constexpr (hasTag<option::def::mc::DefaultNumValueTag, McOpts>()) { return static_cast<ValueType>(McDefault::value); }
        else { return static_cast<ValueType>(0); }
    }

    std::uint64_t mcToSer() const
    {
        if constexpr (std::is_same<T, float>::value) { std::uint32_t r = 0; std::memcpy(&r, &m_value, sizeof(r)); return r; }
        else if constexpr (McFloat) { std::uint64_t r = 0; std::memcpy(&r, &m_value, sizeof(r)); return r; }
        else { return static_cast<std::uint64_t>(static_cast<McU>(m_value)) + static_cast<std::uint64_t>(McSerOffset::value); }
    }

    static ValueType mcFromSer(std::uint64_t raw, std::size_t bits)
    {
        if constexpr (std::is_same<T, float>::value) { auto r = static_cast<std::uint32_t>(raw); float f = 0; std::memcpy(&f, &r, sizeof(f)); return f; }
        else if constexpr (McFloat) { double f = 0; std::memcpy(&f, &raw, sizeof(f)); return static_cast<T>(f); }
        else {
            if (McSigned && McFixed::signExtend && McBits::signExtend) { raw = signExt(raw, bits); }
            else { raw &= maskBits(bits); }
            return static_cast<ValueType>(static_cast<McU>(raw - static_cast<std::uint64_t>(McSerOffset::value)));
        }
    }

    std::size_t mcVarLen() const
    {
        auto s = mcToSer();
        std::size_t n = 1U;
        for (; n < McVar::maxVal; ++n) {
            if (64U <= (n * 7U)) { break; }
            auto cut = s & maskBits(n * 7U);
            if (McSigned) { cut = signExt(cut, n * 7U); }
            if (cut == s) { break; }
        }
        return maxOf(n, McVar::minVal);
    }

    std::size_t mcAvailLen() const { return (m_forced.val < 0) ? mcLen() : static_cast<std::size_t>(m_forced.val); }

    ValueType m_value;
    ForcedLen<McAvail> m_forced;

public:
    void setForcedLength(int v) { m_forced.val = (v < 0) ? v : static_cast<int>(minOf(static_cast<std::size_t>(v), mcLen())); }
    int getForcedLength() const { return m_forced.val; }
};

}} // namespace comms::details
