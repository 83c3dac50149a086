#pragma once
#include "comms/details/base.h"
#include "comms/details/num.h"
#include "comms/details/names.h"
#include "comms/Field.h"
#include "comms/cast.h"
namespace comms { namespace field {
namespace mc { struct NoRemLen { static constexpr std::size_t value = 0U; }; }
template <typename TFieldBase, typename TMembers, typename... TOptions>
class Bundle : public TFieldBase, public details::VersionHolder<details::hasOpt<option::def::VersionStorage, details::Flatten<TOptions...> >()>
{
    using McOpts = details::Flatten<TOptions...>;
    using McInfo = details::TupleInfo<TMembers>;
    static constexpr std::size_t McSize = McInfo::size;
    template <std::size_t A, std::size_t B> using McF = details::Fields<A, B>;
    using McVerBase = details::VersionHolder<details::hasOpt<option::def::VersionStorage, McOpts>()>;
    static constexpr bool McHasRem = details::hasTag<option::def::mc::RemLengthMemberFieldTag, McOpts>();
    static constexpr std::size_t McRem = details::Find<option::def::mc::RemLengthMemberFieldTag, mc::NoRemLen, McOpts>::value;
    static constexpr bool McHasFail = details::hasTag<option::def::mc::FailOnInvalidTag, McOpts>();
    struct mcVer { static constexpr bool value = McInfo::anyVersionDependent(); };
public:
    using FieldBase = TFieldBase;
    using ValueType = TMembers;
    using VersionType = details::VersionType;
    using McUnits = details::NoUnits;
    using Endian = typename TFieldBase::Endian;
    Bundle() { mcInitRem(); }
    explicit Bundle(const ValueType& v) : m_value(v) {}
    ValueType& value() { return m_value; }
    const ValueType& value() const { return m_value; }
    const ValueType& getValue() const { return m_value; }
    template <typename U> void setValue(U&& v) { m_value = std::forward<U>(v); }
    static constexpr bool hasFixedValue() { return details::hasOpt<option::def::FixedValue, McOpts>(); }
    static constexpr bool isVersionDependent()
    { return details::Find<option::def::mc::HasVersionDependentMembersTag, mcVer, McOpts>::value; }
    static constexpr bool hasNonDefaultRefresh()
    { return McHasRem || details::hasOpt<option::def::HasCustomRefresh, McOpts>() || McInfo::anyRefresh(); }
    static constexpr bool hasReadNoStatus()
    { return (!McHasRem) && (!McHasFail) && (!details::hasOpt<option::def::HasCustomRead, McOpts>()) && McInfo::allReadNoStatus(); }
    static constexpr bool hasWriteNoStatus()
    { return (!details::hasOpt<option::def::HasCustomWrite, McOpts>()) && McInfo::allWriteNoStatus(); }
    static constexpr std::size_t minLength() { return details::LenSum<TMembers, 0U, McSize>::minLen(); }
    static constexpr std::size_t maxLength() { return details::LenSum<TMembers, 0U, McSize>::maxLen(); }
    template <std::size_t TFrom> static constexpr std::size_t minLengthFrom() { return details::LenSum<TMembers, TFrom, McSize>::minLen(); }
    template <std::size_t TFrom> static constexpr std::size_t maxLengthFrom() { return details::LenSum<TMembers, TFrom, McSize>::maxLen(); }
    template <std::size_t TUntil> static constexpr std::size_t minLengthUntil() { return details::LenSum<TMembers, 0U, TUntil>::minLen(); }
    template <std::size_t TUntil> static constexpr std::size_t maxLengthUntil() { return details::LenSum<TMembers, 0U, TUntil>::maxLen(); }
    template <std::size_t TFrom, std::size_t TUntil> static constexpr std::size_t minLengthFromUntil() { return details::LenSum<TMembers, TFrom, TUntil>::minLen(); }
    template <std::size_t TFrom, std::size_t TUntil> static constexpr std::size_t maxLengthFromUntil() { return details::LenSum<TMembers, TFrom, TUntil>::maxLen(); }

    std::size_t length() const { return McF<0U, McSize>::length(m_value); }
    template <std::size_t TFrom> std::size_t lengthFrom() const { return McF<TFrom, McSize>::length(m_value); }
    template <std::size_t TUntil> std::size_t lengthUntil() const { return McF<0U, TUntil>::length(m_value); }
    template <std::size_t TFrom, std::size_t TUntil> std::size_t lengthFromUntil() const { return McF<TFrom, TUntil>::length(m_value); }
    bool valid() const { return McF<0U, McSize>::valid(m_value); }
    bool canWrite() const { return McF<0U, McSize>::canWrite(m_value); }
    bool refresh()
    {
        bool r = McF<0U, McSize>::refresh(m_value);
        if constexpr (McHasRem) {
            auto l = McF<McRem + 1U, McSize>::length(m_value);
            auto& f = std::get<McRem>(m_value);
            if (static_cast<std::size_t>(f.getValue()) != l) { f.setValue(l); r = true; }
        }
        return r;
    }
    bool setVersion(VersionType v)
    {
        bool r = McVerBase::mcSetVersion(v);
        if constexpr (isVersionDependent()) { bool m = McF<0U, McSize>::setVersion(m_value, v); r = r || m; if (m) { mcInitRem(); } }
        return r;
    }
    template <typename TIter> void readNoStatus(TIter& iter) { McF<0U, McSize>::readNoStatus(m_value, iter); }
    template <typename TIter> void writeNoStatus(TIter& iter) const { McF<0U, McSize>::writeNoStatus(m_value, iter); }

    template <typename TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        auto es = mcRead<0U, McSize>(iter, len);
        if constexpr (McHasFail) {
            if ((es == ErrorStatus::Success) && (!details::fullValid<McOpts>(this))) { return details::Find<option::def::mc::FailOnInvalidTag, details::NoFail, McOpts>::value; }
        }
        return es;
    }
    template <std::size_t TFrom, typename TIter> ErrorStatus readFrom(TIter& iter, std::size_t len) { return mcRead<TFrom, McSize>(iter, len); }
    template <std::size_t TFrom, typename TIter> ErrorStatus readFromAndUpdateLen(TIter& iter, std::size_t& len) { return mcRead<TFrom, McSize>(iter, len); }
    template <std::size_t TUntil, typename TIter> ErrorStatus readUntil(TIter& iter, std::size_t len) { return mcRead<0U, TUntil>(iter, len); }
    template <std::size_t TUntil, typename TIter> ErrorStatus readUntilAndUpdateLen(TIter& iter, std::size_t& len) { return mcRead<0U, TUntil>(iter, len); }
    template <std::size_t TFrom, std::size_t TUntil, typename TIter> ErrorStatus readFromUntil(TIter& iter, std::size_t len) { return mcRead<TFrom, TUntil>(iter, len); }
    template <std::size_t TFrom, std::size_t TUntil, typename TIter> ErrorStatus readFromUntilAndUpdateLen(TIter& iter, std::size_t& len) { return mcRead<TFrom, TUntil>(iter, len); }

    template <typename TIter> ErrorStatus write(TIter& iter, std::size_t len) const { return McF<0U, McSize>::write(m_value, iter, len); }
    template <std::size_t TFrom, typename TIter> ErrorStatus writeFrom(TIter& iter, std::size_t len) const { return McF<TFrom, McSize>::write(m_value, iter, len); }
    template <std::size_t TUntil, typename TIter> ErrorStatus writeUntil(TIter& iter, std::size_t len) const { return McF<0U, TUntil>::write(m_value, iter, len); }
    template <std::size_t TUntil, typename TIter> ErrorStatus writeUntilAndUpdateLen(TIter& iter, std::size_t& len) const { return McF<0U, TUntil>::write(m_value, iter, len); }
    template <std::size_t TFrom, std::size_t TUntil, typename TIter> ErrorStatus writeFromUntil(TIter& iter, std::size_t len) const { return McF<TFrom, TUntil>::write(m_value, iter, len); }
    template <std::size_t TFrom, std::size_t TUntil, typename TIter> ErrorStatus writeFromUntilAndUpdateLen(TIter& iter, std::size_t& len) const { return McF<TFrom, TUntil>::write(m_value, iter, len); }

private:
    void mcInitRem() { if constexpr (McHasRem) { auto& f = std::get<McRem>(m_value); f.setValue(McF<McRem + 1U, McSize>::length(m_value)); } }
    // The remaining length member bounds everything that follows it.  The
    // bound survives split reads (readUntil + readFrom) in m_limit.
    template <std::size_t TFrom, std::size_t TUntil, typename TIter> ErrorStatus mcRead(TIter& iter, std::size_t& len)
    {
        if constexpr (!McHasRem) { return McF<TFrom, TUntil>::read(m_value, iter, len); }
        else {
            if constexpr (TUntil <= McRem) { return McF<TFrom, TUntil>::read(m_value, iter, len); }
            else {
                if constexpr (TFrom <= McRem) {
                    auto es = McF<TFrom, McRem + 1U>::read(m_value, iter, len);
                    if (es != ErrorStatus::Success) { return es; }
                    m_limit.val = static_cast<std::size_t>(std::get<McRem>(m_value).getValue());
                    if (len < m_limit.val) { return ErrorStatus::NotEnoughData; }
                }
                constexpr std::size_t From = (TFrom <= McRem) ? (McRem + 1U) : TFrom;
                auto rem = details::minOf(len, m_limit.val);
                auto before = rem;
                auto es = McF<From, TUntil>::read(m_value, iter, rem);
                if (es != ErrorStatus::Success) { return (es == ErrorStatus::NotEnoughData) ? ErrorStatus::ProtocolError : es; }
                auto consumed = before - rem;
                m_limit.val -= consumed;
                if constexpr (TUntil == McSize) {
                    std::advance(iter, static_cast<std::ptrdiff_t>(rem));
                    consumed = before;
                    m_limit.val = 0U;
                }
                len -= consumed;
                return es;
            }
        }
    }
    template <bool THas, typename D = void> struct McLimit { std::size_t val = details::MaxLen; };
    template <typename D> struct McLimit<false, D> {};
    ValueType m_value;
    McLimit<McHasRem> m_limit;
};
template <typename B, typename M, typename... O>
bool operator==(const Bundle<B, M, O...>& a, const Bundle<B, M, O...>& b) { return a.value() == b.value(); }
template <typename B, typename M, typename... O>
bool operator!=(const Bundle<B, M, O...>& a, const Bundle<B, M, O...>& b) { return !(a == b); }
template <typename B, typename M, typename... O>
bool operator<(const Bundle<B, M, O...>& a, const Bundle<B, M, O...>& b) { return a.value() < b.value(); }
namespace mc {
template <typename B, typename M, typename... O> std::true_type isBundleImpl(const Bundle<B, M, O...>*);
std::false_type isBundleImpl(...);
}
template <typename T> constexpr bool isBundle() { return decltype(mc::isBundleImpl(static_cast<T*>(nullptr)))::value; }
}}
