#pragma once
#include "comms/details/base.h"
#include "comms/details/num.h"
#include "comms/details/names.h"
#include "comms/Field.h"
namespace comms { namespace field {
namespace mc {
template <std::size_t I, std::size_t N> struct Bf
{
    template <typename T> static constexpr std::size_t bits()
    { return std::tuple_element<I, T>::type::mcBitLength() + Bf<I + 1U, N>::template bits<T>(); }
    template <typename T> static ErrorStatus set(T& t, std::uint64_t raw)
    {
        using F = typename std::tuple_element<I, T>::type;
        auto es = std::get<I>(t).mcSetBits(raw & details::maskBits(F::mcBitLength()));
        if (es != ErrorStatus::Success) { return es; }
        return Bf<I + 1U, N>::set(t, (F::mcBitLength() < 64U) ? (raw >> F::mcBitLength()) : 0U);
    }
    template <typename T> static std::uint64_t get(const T& t)
    {
        using F = typename std::tuple_element<I, T>::type;
        auto rest = Bf<I + 1U, N>::get(t);
        return std::get<I>(t).mcGetBits() | ((F::mcBitLength() < 64U) ? (rest << F::mcBitLength()) : 0U);
    }
};
template <std::size_t N> struct Bf<N, N>
{
    template <typename T> static constexpr std::size_t bits() { return 0U; }
    template <typename T> static ErrorStatus set(T&, std::uint64_t) { return ErrorStatus::Success; }
    template <typename T> static std::uint64_t get(const T&) { return 0U; }
};
}
template <typename TFieldBase, typename TMembers, typename... TOptions>
class Bitfield : public TFieldBase
{
    using McOpts = details::Flatten<TOptions...>;
    using McInfo = details::TupleInfo<TMembers>;
    using McAll = details::Fields<0U, McInfo::size>;
    using McBf = mc::Bf<0U, McInfo::size>;
    static_assert((McBf::template bits<TMembers>() % 8U) == 0U, "Wrong bitfield members");
    static_assert(McBf::template bits<TMembers>() <= 64U, "Wrong bitfield members");
public:
    using FieldBase = TFieldBase;
    using ValueType = TMembers;
    using VersionType = details::VersionType;
    using McUnits = details::NoUnits;
    using Endian = typename std::conditional<details::hasOpt<option::def::LittleEndian, McOpts>(), option::def::LittleEndian,
        typename std::conditional<details::hasOpt<option::def::BigEndian, McOpts>(), option::def::BigEndian, typename TFieldBase::Endian>::type>::type;
    ValueType& value() { return m_value; }
    const ValueType& value() const { return m_value; }
    const ValueType& getValue() const { return m_value; }
    template <typename U> void setValue(U&& v) { m_value = std::forward<U>(v); }
    template <std::size_t TIdx> static constexpr std::size_t memberBitLength() { return std::tuple_element<TIdx, TMembers>::type::mcBitLength(); }
    static constexpr bool hasFixedValue() { return details::hasOpt<option::def::FixedValue, McOpts>(); }
    static constexpr bool isVersionDependent()
    { return details::Find<option::def::mc::HasVersionDependentMembersTag, mcVer, McOpts>::value; }
    static constexpr bool hasNonDefaultRefresh()
    { return details::hasOpt<option::def::HasCustomRefresh, McOpts>() || McInfo::anyRefresh(); }
    static constexpr bool hasReadNoStatus() { return (!details::hasOpt<option::def::HasCustomRead, McOpts>()) && McInfo::allReadNoStatus() && (!hasFail()); }
    static constexpr bool hasWriteNoStatus() { return (!details::hasOpt<option::def::HasCustomWrite, McOpts>()) && McInfo::allWriteNoStatus(); }
    static constexpr std::size_t minLength() { return mcLen(); }
    static constexpr std::size_t maxLength() { return mcLen(); }
    std::size_t length() const { return mcLen(); }
    bool valid() const { return McAll::valid(m_value); }
    bool canWrite() const { return McAll::canWrite(m_value); }
    bool refresh() { return McAll::refresh(m_value); }
    bool setVersion(VersionType v)
    { if constexpr (isVersionDependent()) { return McAll::setVersion(m_value, v); } else { static_cast<void>(v); return false; } }
    template <typename TIter> void readNoStatus(TIter& iter) { McBf::set(m_value, details::readBytes(iter, mcLen(), mcBig())); }
    template <typename TIter> void writeNoStatus(TIter& iter) const { details::writeBytes(iter, McBf::get(m_value), mcLen(), mcBig()); }
    template <typename TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        if (len < mcLen()) { return ErrorStatus::NotEnoughData; }
        auto es = McBf::set(m_value, details::readBytes(iter, mcLen(), mcBig()));
        if (es != ErrorStatus::Success) { return es; }
        if constexpr (hasFail()) {
            if (!details::fullValid<McOpts>(this)) { return details::Find<option::def::mc::FailOnInvalidTag, details::NoFail, McOpts>::value; }
        }
        return es;
    }
    template <typename TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    {
        if (len < mcLen()) { return ErrorStatus::BufferOverflow; }
        writeNoStatus(iter);
        return ErrorStatus::Success;
    }
private:
    struct mcVer { static constexpr bool value = McInfo::anyVersionDependent(); };
    static constexpr bool hasFail() { return details::hasTag<option::def::mc::FailOnInvalidTag, McOpts>(); }
    static constexpr std::size_t mcLen() { return McBf::template bits<TMembers>() / 8U; }
    static constexpr bool mcBig() { return std::is_same<Endian, option::def::BigEndian>::value; }
    ValueType m_value;
};
template <typename B, typename M, typename... O>
bool operator==(const Bitfield<B, M, O...>& a, const Bitfield<B, M, O...>& b) { return a.value() == b.value(); }
template <typename B, typename M, typename... O>
bool operator!=(const Bitfield<B, M, O...>& a, const Bitfield<B, M, O...>& b) { return !(a == b); }
template <typename B, typename M, typename... O>
bool operator<(const Bitfield<B, M, O...>& a, const Bitfield<B, M, O...>& b) { return a.value() < b.value(); }
}}
