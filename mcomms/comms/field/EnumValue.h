#pragma once
#include "comms/details/num.h"
namespace comms { namespace field {
struct McEnumValueTag {};
template <typename TFieldBase, typename T, typename... TOptions>
class EnumValue : public details::NumField<TFieldBase, T, TOptions...>
{
    using Base = details::NumField<TFieldBase, T, TOptions...>;
public:
    using McEnumValue = void;
    EnumValue() = default;
    explicit EnumValue(typename Base::ValueType v) : Base(v) {}
};
template <typename B, typename T, typename... O>
bool operator==(const EnumValue<B, T, O...>& a, const EnumValue<B, T, O...>& b) { return a.mcEq(b); }
template <typename B, typename T, typename... O>
bool operator!=(const EnumValue<B, T, O...>& a, const EnumValue<B, T, O...>& b) { return !a.mcEq(b); }
template <typename B, typename T, typename... O>
bool operator<(const EnumValue<B, T, O...>& a, const EnumValue<B, T, O...>& b) { return a.mcLt(b); }
namespace mc {
template <typename B, typename T, typename... O> std::true_type isEnumValueImpl(const EnumValue<B, T, O...>*);
std::false_type isEnumValueImpl(...);
}
template <typename T> constexpr bool isEnumValue() { return decltype(mc::isEnumValueImpl(static_cast<T*>(nullptr)))::value; }
}}
