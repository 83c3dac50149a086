#pragma once
#include "comms/details/foreach.h"
#define MC_AL_T(x_) ::Field_ ## x_
#define MC_AL_A(x_) .field_ ## x_ ()
#define MC_AL_SEL(_1,_2,_3,_4,_5,_6,_7,_8,N,...) N
#define MC_AL_DEF1(P_, p_, a_, f_) \
    using Field_ ## a_ = P_ ## f_; \
    Field_ ## a_& field_ ## a_ () { return p_ ## f_ (); } \
    const Field_ ## a_& field_ ## a_ () const { return p_ ## f_ (); }
#define MC_AL_DEFN(P_, p_, a_, f_, ...) \
    using Field_ ## a_ = typename P_ ## f_ MC_FOR_EACH(MC_AL_T, __VA_ARGS__); \
    Field_ ## a_& field_ ## a_ () { return p_ ## f_ () MC_FOR_EACH(MC_AL_A, __VA_ARGS__); } \
    const Field_ ## a_& field_ ## a_ () const { return p_ ## f_ () MC_FOR_EACH(MC_AL_A, __VA_ARGS__); }
#define MC_AL_PICK(...) MC_AL_SEL(__VA_ARGS__, MC_AL_DEFN, MC_AL_DEFN, MC_AL_DEFN, MC_AL_DEFN, MC_AL_DEFN, MC_AL_DEFN, MC_AL_DEF1, MC_AL_DEF1)
#define COMMS_MSG_FIELD_ALIAS(a_, ...) MC_AL_PICK(a_, __VA_ARGS__)(Field_, field_, a_, __VA_ARGS__)
#define COMMS_FIELD_ALIAS(a_, ...) MC_AL_PICK(a_, __VA_ARGS__)(Field_, field_, a_, __VA_ARGS__)
#define MC_TAL_DEF1(a_, f_) \
    using TransportField_ ## a_ = TransportField_ ## f_; \
    TransportField_ ## a_& transportField_ ## a_ () { return transportField_ ## f_ (); } \
    const TransportField_ ## a_& transportField_ ## a_ () const { return transportField_ ## f_ (); }
#define MC_TAL_DEFN(a_, f_, ...) \
    using TransportField_ ## a_ = typename TransportField_ ## f_ MC_FOR_EACH(MC_AL_T, __VA_ARGS__); \
    TransportField_ ## a_& transportField_ ## a_ () { return transportField_ ## f_ () MC_FOR_EACH(MC_AL_A, __VA_ARGS__); } \
    const TransportField_ ## a_& transportField_ ## a_ () const { return transportField_ ## f_ () MC_FOR_EACH(MC_AL_A, __VA_ARGS__); }
#define MC_TAL_PICK(...) MC_AL_SEL(__VA_ARGS__, MC_TAL_DEFN, MC_TAL_DEFN, MC_TAL_DEFN, MC_TAL_DEFN, MC_TAL_DEFN, MC_TAL_DEFN, MC_TAL_DEF1, MC_TAL_DEF1)
#define COMMS_MSG_TRANSPORT_FIELD_ALIAS(a_, ...) MC_TAL_PICK(a_, __VA_ARGS__)(a_, __VA_ARGS__)
