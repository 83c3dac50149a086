#pragma once
#include <string>
#include "comms/details/seq.h"
namespace comms { namespace field {
namespace mc {
template <typename TList> struct StrStorage
{
    static constexpr bool useFixed = details::hasOpt<option::app::SequenceFixedSizeUseFixedSizeStorage, TList>() && details::hasTag<option::def::mc::SequenceFixedSizeTag, TList>();
    static constexpr std::size_t cap = useFixed ? details::Find<option::def::mc::SequenceFixedSizeTag, details::NoSize, TList>::value :
        details::Find<option::app::mc::FixedSizeStorageTag, details::NoSize, TList>::value;
    using type = typename std::conditional<useFixed || (cap != 0U), util::StaticString<cap>,
        typename std::conditional<details::hasOpt<option::app::OrigDataView, TList>(), util::StringView, std::string>::type>::type;
};
}
template <typename TFieldBase, typename... TOptions>
class String : public details::SeqField<TFieldBase, typename mc::StrStorage<details::Flatten<TOptions...> >::type, void, TOptions...>
{
    using Base = details::SeqField<TFieldBase, typename mc::StrStorage<details::Flatten<TOptions...> >::type, void, TOptions...>;
public:
    using ValueType = typename Base::ValueType;
    String() = default;
    explicit String(const ValueType& v) : Base(v) {}
    template <typename TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        auto es = Base::read(iter, len);
        if constexpr (Base::McHasFixed) {
            if (es == ErrorStatus::Success) {
                auto& v = Base::m_value;
                std::size_t n = 0U;
                while ((n < v.size()) && (v[n] != '\0')) { ++n; }
                if constexpr (Base::McView) { v = ValueType(v.data(), n); } else { v.resize(n); }
            }
        }
        return es;
    }
};
template <typename B, typename... O>
bool operator==(const String<B, O...>& a, const String<B, O...>& b) { return a.mcEq(b); }
template <typename B, typename... O>
bool operator!=(const String<B, O...>& a, const String<B, O...>& b) { return !a.mcEq(b); }
template <typename B, typename... O>
bool operator<(const String<B, O...>& a, const String<B, O...>& b) { return a.mcLt(b); }
namespace mc {
template <typename B, typename... O> std::true_type isStringImpl(const String<B, O...>*);
std::false_type isStringImpl(...);
}
template <typename T> constexpr bool isString() { return decltype(mc::isStringImpl(static_cast<T*>(nullptr)))::value; }
}}
