#pragma once
#include "comms/details/num.h"
namespace comms { namespace field {
struct McFloatValueTag {};
template <typename TFieldBase, typename T, typename... TOptions>
class FloatValue : public details::NumField<TFieldBase, T, TOptions...>
{
    using Base = details::NumField<TFieldBase, T, TOptions...>;
public:
    using McFloatValue = void;
    FloatValue() = default;
    explicit FloatValue(typename Base::ValueType v) : Base(v) {}
};
template <typename B, typename T, typename... O>
bool operator==(const FloatValue<B, T, O...>& a, const FloatValue<B, T, O...>& b) { return a.mcEq(b); }
template <typename B, typename T, typename... O>
bool operator!=(const FloatValue<B, T, O...>& a, const FloatValue<B, T, O...>& b) { return !a.mcEq(b); }
template <typename B, typename T, typename... O>
bool operator<(const FloatValue<B, T, O...>& a, const FloatValue<B, T, O...>& b) { return a.mcLt(b); }
namespace mc {
template <typename B, typename T, typename... O> std::true_type isFloatValueImpl(const FloatValue<B, T, O...>*);
std::false_type isFloatValueImpl(...);
}
template <typename T> constexpr bool isFloatValue() { return decltype(mc::isFloatValueImpl(static_cast<T*>(nullptr)))::value; }
}}
