#pragma once
#include "comms/details/num.h"
#include "comms/details/foreach.h"
namespace comms { namespace field {
namespace mc {
struct BmDefLen { static constexpr std::size_t value = 0U; };
template <typename TList> struct BmType
{
    static constexpr std::size_t fixedLen = details::Find<option::def::mc::FixedLengthTag, BmDefLen, TList>::value;
    static constexpr std::size_t bitLen = (details::Find<option::def::mc::FixedBitLengthTag, BmDefLen, TList>::value + 7U) / 8U;
    static constexpr std::size_t len = (fixedLen != 0U) ? fixedLen : ((bitLen != 0U) ? bitLen : sizeof(unsigned));
    using type = typename details::UIntFor<len>::type;
};
}
template <typename TFieldBase, typename... TOptions>
class BitmaskValue : public details::NumField<TFieldBase, typename mc::BmType<details::Flatten<TOptions...> >::type, TOptions...>
{
    using Base = details::NumField<TFieldBase, typename mc::BmType<details::Flatten<TOptions...> >::type, TOptions...>;
public:
    using ValueType = typename Base::ValueType;
    BitmaskValue() = default;
    explicit BitmaskValue(ValueType v) : Base(v) {}
    bool getBitValue(unsigned idx) const { return ((static_cast<std::uintmax_t>(Base::m_value) >> idx) & 1U) != 0U; }
    void setBitValue(unsigned idx, bool val)
    {
        auto m = static_cast<std::uintmax_t>(1U) << idx;
        auto v = static_cast<std::uintmax_t>(Base::m_value);
        Base::m_value = static_cast<ValueType>(val ? (v | m) : (v & (~m)));
    }
    bool hasAllBitsSet(ValueType mask) const { return (Base::m_value & mask) == mask; }
    bool hasAnyBitsSet(ValueType mask) const { return (Base::m_value & mask) != 0U; }
    void setBits(ValueType mask) { Base::m_value = static_cast<ValueType>(Base::m_value | mask); }
    void clearBits(ValueType mask) { Base::m_value = static_cast<ValueType>(Base::m_value & (~mask)); }
};
template <typename B, typename... O>
bool operator==(const BitmaskValue<B, O...>& a, const BitmaskValue<B, O...>& b) { return a.mcEq(b); }
template <typename B, typename... O>
bool operator!=(const BitmaskValue<B, O...>& a, const BitmaskValue<B, O...>& b) { return !a.mcEq(b); }
template <typename B, typename... O>
bool operator<(const BitmaskValue<B, O...>& a, const BitmaskValue<B, O...>& b) { return a.mcLt(b); }
namespace mc {
template <typename B, typename... O> std::true_type isBitmaskValueImpl(const BitmaskValue<B, O...>*);
std::false_type isBitmaskValueImpl(...);
}
template <typename T> constexpr bool isBitmaskValue() { return decltype(mc::isBitmaskValueImpl(static_cast<T*>(nullptr)))::value; }
}}
#define MC_BIT_IDX(x_) BitIdx_ ## x_,
#define MC_BIT_ACC(x_) \
    bool getBitValue_ ## x_ () const { return this->getBitValue(static_cast<unsigned>(BitIdx_ ## x_)); } \
    void setBitValue_ ## x_ (bool val_) { this->setBitValue(static_cast<unsigned>(BitIdx_ ## x_), val_); }
#define COMMS_BITMASK_BITS(...) enum BitIdx : unsigned { MC_FOR_EACH(MC_BIT_IDX, __VA_ARGS__) BitIdx_numOfValues };
#define COMMS_BITMASK_BITS_ACCESS(...) MC_FOR_EACH(MC_BIT_ACC, __VA_ARGS__)
#define COMMS_BITMASK_BITS_ACCESS_NOTEMPLATE(...) MC_FOR_EACH(MC_BIT_ACC, __VA_ARGS__)
#define COMMS_BITMASK_BITS_SEQ(...) COMMS_BITMASK_BITS(__VA_ARGS__) COMMS_BITMASK_BITS_ACCESS(__VA_ARGS__)
