#pragma once
#include "comms/frame/ChecksumLayer.h"
namespace comms { namespace frame {
template <typename TField, typename TCalc, typename TNext, typename... TOptions>
class ChecksumPrefixLayer : public mc::ChecksumBase<ChecksumPrefixLayer<TField, TCalc, TNext, TOptions...>, true, TField, TCalc, TNext, TOptions...> {};
}}
