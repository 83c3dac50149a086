#pragma once
#include <vector>
#include "comms/details/seq.h"
namespace comms { namespace field {
namespace mc {
template <typename TElem, typename TList> struct ListStorage
{
    static constexpr bool useFixed = details::hasOpt<option::app::SequenceFixedSizeUseFixedSizeStorage, TList>() && details::hasTag<option::def::mc::SequenceFixedSizeTag, TList>();
    static constexpr std::size_t cap = useFixed ? details::Find<option::def::mc::SequenceFixedSizeTag, details::NoSize, TList>::value :
        details::Find<option::app::mc::FixedSizeStorageTag, details::NoSize, TList>::value;
    using type = typename std::conditional<useFixed || (cap != 0U), util::StaticVector<TElem, cap>,
        typename std::conditional<details::hasOpt<option::app::OrigDataView, TList>() && std::is_integral<TElem>::value, util::ArrayView<TElem>, std::vector<TElem> >::type>::type;
};
template <typename T> using ElemField = typename std::conditional<std::is_integral<T>::value, void, T>::type;
}
template <typename TFieldBase, typename TElement, typename... TOptions>
class ArrayList : public details::SeqField<TFieldBase, typename mc::ListStorage<TElement, details::Flatten<TOptions...> >::type, mc::ElemField<TElement>, TOptions...>
{
    using Base = details::SeqField<TFieldBase, typename mc::ListStorage<TElement, details::Flatten<TOptions...> >::type, mc::ElemField<TElement>, TOptions...>;
public:
    using ElementType = TElement;
    using ValueType = typename Base::ValueType;
    ArrayList() = default;
    explicit ArrayList(const ValueType& v) : Base(v) {}
    TElement& createBack() { Base::m_value.emplace_back(); Base::mcPrepElem(Base::m_value.back()); return Base::m_value.back(); }
};
template <typename B, typename E, typename... O>
bool operator==(const ArrayList<B, E, O...>& a, const ArrayList<B, E, O...>& b) { return a.mcEq(b); }
template <typename B, typename E, typename... O>
bool operator!=(const ArrayList<B, E, O...>& a, const ArrayList<B, E, O...>& b) { return !a.mcEq(b); }
template <typename B, typename E, typename... O>
bool operator<(const ArrayList<B, E, O...>& a, const ArrayList<B, E, O...>& b) { return a.mcLt(b); }
namespace mc {
template <typename B, typename E, typename... O> std::true_type isArrayListImpl(const ArrayList<B, E, O...>*);
std::false_type isArrayListImpl(...);
}
template <typename T> constexpr bool isArrayList() { return decltype(mc::isArrayListImpl(static_cast<T*>(nullptr)))::value; }
}}
