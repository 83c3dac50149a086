#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <iterator>
#include <limits>
#include <tuple>
#include <type_traits>
#include <utility>
#include "comms/options.h"
#include "comms/ErrorStatus.h"
#include "comms/Assert.h"

namespace comms { namespace details {

using VersionType = unsigned;

template <typename...> struct List {};
template <typename T> struct Ident { using type = T; };

// ---- option flattening and lookup (the first option with a given tag wins)
template <typename TAcc, typename... T> struct Flat;
template <typename... A> struct Flat<List<A...> > { using type = List<A...>; };
template <typename... A, typename T, typename... R> struct Flat<List<A...>, T, R...> : Flat<List<A..., T>, R...> {};
template <typename... A, typename... R> struct Flat<List<A...>, comms::option::app::EmptyOption, R...> : Flat<List<A...>, R...> {};
template <typename... A, typename... X, typename... R> struct Flat<List<A...>, std::tuple<X...>, R...> : Flat<List<A...>, X..., R...> {};
template <typename... T> using Flatten = typename Flat<List<>, T...>::type;

template <typename TTag, typename TDef, typename TList> struct FindImpl;
template <typename TTag, typename TDef> struct FindImpl<TTag, TDef, List<> > { using type = TDef; };
template <typename TTag, typename TDef, typename T, typename... R>
struct FindImpl<TTag, TDef, List<T, R...> > :
    std::conditional<std::is_same<typename T::mcTag, TTag>::value, Ident<T>, FindImpl<TTag, TDef, List<R...> > >::type {};
template <typename TTag, typename TDef, typename TList> using Find = typename FindImpl<TTag, TDef, TList>::type;

template <typename TTag, typename TList> struct HasTagImpl;
template <typename TTag, typename... T> struct HasTagImpl<TTag, List<T...> > {
    static constexpr bool value = (std::is_same<typename T::mcTag, TTag>::value || ... || false); };
template <typename TTag, typename TList> constexpr bool hasTag() { return HasTagImpl<TTag, TList>::value; }
template <typename TOpt, typename TList> constexpr bool hasOpt() { return HasTagImpl<typename TOpt::mcTag, TList>::value; }

// ---- index sequences for C++11
template <std::size_t... I> struct Seq {};
template <std::size_t N, std::size_t... I> struct MakeSeqImpl : MakeSeqImpl<N - 1U, N - 1U, I...> {};
template <std::size_t... I> struct MakeSeqImpl<0U, I...> { using type = Seq<I...>; };
template <std::size_t N> using MakeSeq = typename MakeSeqImpl<N>::type;

// ---- byte access
template <typename TIter>
std::uint64_t readBytes(TIter& iter, std::size_t n, bool big)
{
    std::uint64_t r = 0U;
    for (std::size_t i = 0U; i < n; ++i) {
        std::uint64_t b = static_cast<std::uint8_t>(*iter);
        ++iter;
        if (big) { r = (r << 8U) | b; } else { r |= b << (8U * i); }
    }
    return r;
}

template <typename TIter>
void writeBytes(TIter& iter, std::uint64_t val, std::size_t n, bool big)
{
    for (std::size_t i = 0U; i < n; ++i) {
        std::size_t sh = big ? (n - i - 1U) * 8U : i * 8U;
        *iter = static_cast<std::uint8_t>((val >> sh) & 0xffU);
        ++iter;
    }
}

inline constexpr std::uint64_t maskBits(std::size_t bits)
{
    return (64U <= bits) ? ~static_cast<std::uint64_t>(0) : ((static_cast<std::uint64_t>(1) << bits) - 1U);
}

inline std::uint64_t signExt(std::uint64_t val, std::size_t bits)
{
    if ((bits == 0U) || (64U <= bits)) { return val; }
    if (((val >> (bits - 1U)) & 1U) != 0U) { return val | ~maskBits(bits); }
    return val & maskBits(bits);
}

constexpr std::size_t MaxLen = 0xffffffffU; // "unlimited"
inline constexpr std::size_t addLen(std::size_t a, std::size_t b) { return ((MaxLen - a) < b) ? MaxLen : (a + b); }
inline constexpr std::size_t mulLen(std::size_t a, std::size_t b)
{ return ((a != 0U) && ((MaxLen / a) < b)) ? MaxLen : (a * b); }
inline constexpr std::size_t minOf(std::size_t a, std::size_t b) { return (a < b) ? a : b; }
inline constexpr std::size_t maxOf(std::size_t a, std::size_t b) { return (a < b) ? b : a; }

// ---- version storage
template <bool THas> class VersionHolder
{
public:
    VersionType getVersion() const { return m_version; }
protected:
    bool mcSetVersion(VersionType v) { if (m_version == v) { return false; } m_version = v; return true; }
private:
    VersionType m_version = 0U;
};
template <> class VersionHolder<false>
{
protected:
    bool mcSetVersion(VersionType) { return false; }
};

// The final class of the field knows about custom valid()
struct NoFieldType { using type = void; };
template <typename TOpts, typename T> bool fullValid(const T* self)
{
    using FT = typename Find<option::def::mc::FieldTypeTag, NoFieldType, TOpts>::type;
    if constexpr (std::is_void<FT>::value) { return self->valid(); }
    else { return static_cast<const FT*>(self)->valid(); }
}

template <typename A, typename B> void assignField(A& dst, const B& src);
template <typename T> struct IsTuple : std::false_type {};
template <typename... T> struct IsTuple<std::tuple<T...> > : std::true_type {};
template <std::size_t I, typename A, typename B> void assignTuple(A& dst, const B& src)
{
    if constexpr (I < std::tuple_size<A>::value) {
        assignField(std::get<I>(dst), std::get<I>(src));
        assignTuple<I + 1U>(dst, src);
    }
}
template <typename A, typename B> void assignField(A& dst, const B& src)
{
    using VA = typename A::ValueType;
    using VB = typename B::ValueType;
    if constexpr (std::is_same<A, B>::value) { dst = src; }
    else if constexpr (std::is_same<VA, VB>::value) { dst.setValue(src.getValue()); }
    else if constexpr (IsTuple<VA>::value) { assignTuple<0U>(dst.value(), src.value()); }
    else { dst.setValue(static_cast<VA>(src.getValue())); }
}

// ---- properties of field tuples
template <typename TTuple> struct TupleInfo;
template <typename... T> struct TupleInfo<std::tuple<T...> >
{
    static constexpr std::size_t size = sizeof...(T);
    static constexpr bool anyVersionDependent() { return (T::isVersionDependent() || ... || false); }
    static constexpr bool anyRefresh() { return (T::hasNonDefaultRefresh() || ... || false); }
    static constexpr bool allReadNoStatus() { return (T::hasReadNoStatus() && ... && true); }
    static constexpr bool allWriteNoStatus() { return (T::hasWriteNoStatus() && ... && true); }
};

template <typename TTuple, std::size_t TFrom, std::size_t TUntil, bool TDone = (TUntil <= TFrom)> struct LenSum
{
    using Elem = typename std::tuple_element<TFrom, TTuple>::type;
    static constexpr std::size_t minLen() { return addLen(Elem::minLength(), LenSum<TTuple, TFrom + 1U, TUntil>::minLen()); }
    static constexpr std::size_t maxLen() { return addLen(Elem::maxLength(), LenSum<TTuple, TFrom + 1U, TUntil>::maxLen()); }
};
template <typename TTuple, std::size_t TFrom, std::size_t TUntil> struct LenSum<TTuple, TFrom, TUntil, true>
{
    static constexpr std::size_t minLen() { return 0U; }
    static constexpr std::size_t maxLen() { return 0U; }
};

// ---- operations over field tuples
template <std::size_t TFrom, std::size_t TUntil> struct Fields
{
    template <typename TTuple, typename TIter>
    static comms::ErrorStatus read(TTuple& t, TIter& iter, std::size_t& len)
    {
        if constexpr (TFrom < TUntil) {
            auto& f = std::get<TFrom>(t);
            using F = typename std::decay<decltype(f)>::type;
            auto from = iter;
            if constexpr (F::hasReadNoStatus()) {
                if (len < F::maxLength()) { return comms::ErrorStatus::NotEnoughData; }
                f.readNoStatus(iter);
            }
            else {
                auto es = f.read(iter, len);
                if (es != comms::ErrorStatus::Success) { return es; }
            }
            auto diff = static_cast<std::size_t>(std::distance(from, iter));
            COMMS_ASSERT(diff <= len);
            len -= diff;
            return Fields<TFrom + 1U, TUntil>::read(t, iter, len);
        }
        else { return comms::ErrorStatus::Success; }
    }

    template <typename TTuple, typename TIter>
    static void readNoStatus(TTuple& t, TIter& iter)
    {
        if constexpr (TFrom < TUntil) {
            std::get<TFrom>(t).readNoStatus(iter);
            Fields<TFrom + 1U, TUntil>::readNoStatus(t, iter);
        }
    }

    template <typename TTuple, typename TIter>
    static comms::ErrorStatus write(const TTuple& t, TIter& iter, std::size_t& len)
    {
        if constexpr (TFrom < TUntil) {
            auto& f = std::get<TFrom>(t);
            using F = typename std::decay<decltype(f)>::type;
            std::size_t diff = 0U;
            if constexpr (F::hasWriteNoStatus()) {
                diff = F::maxLength();
                if (len < diff) { return comms::ErrorStatus::BufferOverflow; }
                f.writeNoStatus(iter);
            }
            else {
                auto es = f.write(iter, len);
                if (es != comms::ErrorStatus::Success) { return es; }
                diff = f.length();
            }
            COMMS_ASSERT(diff <= len);
            len -= diff;
            return Fields<TFrom + 1U, TUntil>::write(t, iter, len);
        }
        else { return comms::ErrorStatus::Success; }
    }

    template <typename TTuple, typename TIter>
    static void writeNoStatus(const TTuple& t, TIter& iter)
    {
        if constexpr (TFrom < TUntil) {
            std::get<TFrom>(t).writeNoStatus(iter);
            Fields<TFrom + 1U, TUntil>::writeNoStatus(t, iter);
        }
    }

    template <typename TTuple> static std::size_t length(const TTuple& t)
    {
        if constexpr (TFrom < TUntil) { return std::get<TFrom>(t).length() + Fields<TFrom + 1U, TUntil>::length(t); }
        else { return 0U; }
    }
    template <typename TTuple> static bool valid(const TTuple& t)
    {
        if constexpr (TFrom < TUntil) { return std::get<TFrom>(t).valid() && Fields<TFrom + 1U, TUntil>::valid(t); }
        else { return true; }
    }
    template <typename TTuple> static bool canWrite(const TTuple& t)
    {
        if constexpr (TFrom < TUntil) { return std::get<TFrom>(t).canWrite() && Fields<TFrom + 1U, TUntil>::canWrite(t); }
        else { return true; }
    }
    template <typename TTuple> static bool refresh(TTuple& t)
    {
        if constexpr (TFrom < TUntil) {
            bool r = false;
            using F = typename std::tuple_element<TFrom, TTuple>::type;
            if constexpr (F::hasNonDefaultRefresh()) { r = std::get<TFrom>(t).refresh(); }
            bool o = Fields<TFrom + 1U, TUntil>::refresh(t);
            return r || o;
        }
        else { return false; }
    }
    template <typename TTuple> static bool setVersion(TTuple& t, VersionType v)
    {
        if constexpr (TFrom < TUntil) {
            bool r = false;
            using F = typename std::tuple_element<TFrom, TTuple>::type;
            if constexpr (F::isVersionDependent()) { r = std::get<TFrom>(t).setVersion(v); }
            bool o = Fields<TFrom + 1U, TUntil>::setVersion(t, v);
            return r || o;
        }
        else { return false; }
    }
};

// value() or getValue() when customised
template <typename TField, typename TVal>
void setFieldNum(TField& f, TVal v) { f.setValue(v); }

}} // namespace comms::details
