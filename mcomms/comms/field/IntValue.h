#pragma once
#include "comms/details/num.h"
namespace comms { namespace field {
struct McIntValueTag {};
template <typename TFieldBase, typename T, typename... TOptions>
class IntValue : public details::NumField<TFieldBase, T, TOptions...>
{
    using Base = details::NumField<TFieldBase, T, TOptions...>;
public:
    using McIntValue = void;
    IntValue() = default;
    explicit IntValue(typename Base::ValueType v) : Base(v) {}
};
template <typename B, typename T, typename... O>
bool operator==(const IntValue<B, T, O...>& a, const IntValue<B, T, O...>& b) { return a.mcEq(b); }
template <typename B, typename T, typename... O>
bool operator!=(const IntValue<B, T, O...>& a, const IntValue<B, T, O...>& b) { return !a.mcEq(b); }
template <typename B, typename T, typename... O>
bool operator<(const IntValue<B, T, O...>& a, const IntValue<B, T, O...>& b) { return a.mcLt(b); }
namespace mc {
template <typename B, typename T, typename... O> std::true_type isIntValueImpl(const IntValue<B, T, O...>*);
std::false_type isIntValueImpl(...);
}
template <typename T> constexpr bool isIntValue() { return decltype(mc::isIntValueImpl(static_cast<T*>(nullptr)))::value; }
}}
