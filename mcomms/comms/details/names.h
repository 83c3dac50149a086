#pragma once
#include "comms/details/foreach.h"
#include "comms/details/alias.h"
#define MC_ENUM_ENTRY(x_) FieldIdx_ ## x_,
#define MC_MEMBER_ACC(x_) \
    using Field_ ## x_ = typename std::tuple_element<FieldIdx_ ## x_, McSelfTuple>::type; \
    Field_ ## x_& field_ ## x_ () { return std::get<FieldIdx_ ## x_>(this->value()); } \
    const Field_ ## x_& field_ ## x_ () const { return std::get<FieldIdx_ ## x_>(this->value()); }
#define COMMS_FIELD_MEMBERS_NAMES(...) \
    enum FieldIdx : unsigned { MC_FOR_EACH(MC_ENUM_ENTRY, __VA_ARGS__) FieldIdx_numOfValues }; \
    using McSelfTuple = typename Base::ValueType; \
    static_assert(static_cast<std::size_t>(FieldIdx_numOfValues) == std::tuple_size<McSelfTuple>::value, "wrong number of member names"); \
    MC_FOR_EACH(MC_MEMBER_ACC, __VA_ARGS__)
#define COMMS_FIELD_MEMBERS_NAMES_NOTEMPLATE(...) COMMS_FIELD_MEMBERS_NAMES(__VA_ARGS__)
#define COMMS_FIELD_MEMBERS_ACCESS(...) COMMS_FIELD_MEMBERS_NAMES(__VA_ARGS__)
