#pragma once
#include <cstdint>
#include <cstddef>
#include <tuple>
#include <type_traits>
#include "comms/ErrorStatus.h"
#include "comms/Assert.h"
// Every option carries an mcTag used by the option lookup of mini-COMMS.
namespace comms {
template <typename TMsg, typename TAllMsgs, typename... TOptions> class MsgFactory;
namespace option {
namespace app { struct EmptyOption { struct mcTag; }; }
namespace def {
struct BigEndian { struct mcTag; };
struct LittleEndian { struct mcTag; };
struct AvailableLengthLimit { struct mcTag; };
struct EmptySerialization { struct mcTag; };
struct ExistsByDefault { struct mcTag; };
struct MissingByDefault { struct mcTag; };
struct HasCustomRead { struct mcTag; };
struct HasCustomWrite { struct mcTag; };
struct HasCustomRefresh { struct mcTag; };
struct HasName { struct mcTag; };
struct InvalidByDefault { struct mcTag; };
struct MissingOnInvalid { struct mcTag; };
struct MissingOnReadFail { struct mcTag; };
struct PseudoValue { struct mcTag; };
struct SequenceSizeForcingEnabled { struct mcTag; };
struct SequenceLengthForcingEnabled { struct mcTag; };
struct SequenceElemLengthForcingEnabled { struct mcTag; };
struct VariantHasCustomResetOnDestruct { struct mcTag; };
struct VersionStorage { struct mcTag; };
struct FixedValue { struct mcTag; };
struct FrameLayerVerifyBeforeRead { struct mcTag; };
struct NoIdImpl { struct mcTag; };
struct IgnoreInvalid { struct mcTag; };
struct EmptyTag { struct mcTag; };
namespace mc { struct DefaultNumValueTag; }
template <std::intmax_t TVal> struct DefaultNumValue { using mcTag = mc::DefaultNumValueTag; static constexpr std::intmax_t value = TVal; };
template <std::uintmax_t TVal> struct DefaultBigUnsignedNumValue { using mcTag = mc::DefaultNumValueTag; static constexpr std::uintmax_t value = TVal; };
namespace mc { struct ValidTag; }
template <std::intmax_t TMin, std::intmax_t TMax> struct ValidNumValueRange { using mcTag = mc::ValidTag; static_assert(TMin <= TMax, "bad range"); template <typename T> static constexpr bool mcIn(T v) { return (static_cast<T>(TMin) <= v) && (v <= static_cast<T>(TMax)); } };
template <std::intmax_t TVal> struct ValidNumValue { using mcTag = mc::ValidTag; template <typename T> static constexpr bool mcIn(T v) { return v == static_cast<T>(TVal); } };
template <std::uintmax_t TMin, std::uintmax_t TMax> struct ValidBigUnsignedNumValueRange { using mcTag = mc::ValidTag; static_assert(TMin <= TMax, "bad range"); template <typename T> static constexpr bool mcIn(T v) { return (static_cast<T>(TMin) <= v) && (v <= static_cast<T>(TMax)); } };
template <std::uintmax_t TVal> struct ValidBigUnsignedNumValue { using mcTag = mc::ValidTag; template <typename T> static constexpr bool mcIn(T v) { return v == static_cast<T>(TVal); } };
namespace mc { struct BitmaskReservedBitsTag; }
template <std::uintmax_t TMask, std::uintmax_t TValue = 0U> struct BitmaskReservedBits { using mcTag = mc::BitmaskReservedBitsTag; static constexpr std::uintmax_t mask = TMask; static constexpr std::uintmax_t value = TValue; };
namespace mc { struct DisplayOffsetTag; }
template <std::intmax_t TVal> struct DisplayOffset { using mcTag = mc::DisplayOffsetTag; static constexpr std::intmax_t value = TVal; };
namespace mc { struct HasVersionDependentMembersTag; }
template <bool TVal> struct HasVersionDependentMembers { using mcTag = mc::HasVersionDependentMembersTag; static constexpr bool value = TVal; };
namespace mc { struct ExistsSinceVersionTag; }
template <std::uintmax_t TVer> struct ExistsSinceVersion { using mcTag = mc::ExistsSinceVersionTag; static constexpr std::uintmax_t from = TVer; static constexpr std::uintmax_t until = UINTMAX_MAX; };
template <std::uintmax_t TVer> struct ExistsUntilVersion { using mcTag = mc::ExistsSinceVersionTag; static constexpr std::uintmax_t from = 0U; static constexpr std::uintmax_t until = TVer; };
template <std::uintmax_t TFrom, std::uintmax_t TUntil> struct ExistsBetweenVersions { using mcTag = mc::ExistsSinceVersionTag; static constexpr std::uintmax_t from = TFrom; static constexpr std::uintmax_t until = TUntil; };
namespace mc { struct ExtraTransportFieldsTag; }
template <typename T> struct ExtraTransportFields { using mcTag = mc::ExtraTransportFieldsTag; using type = T; };
namespace mc { struct VersionInExtraTransportFieldsTag; }
template <std::size_t TIdx = 0U> struct VersionInExtraTransportFields { using mcTag = mc::VersionInExtraTransportFieldsTag; static constexpr std::size_t value = TIdx; };
namespace mc { struct FailOnInvalidTag; }
template <comms::ErrorStatus TStatus = comms::ErrorStatus::InvalidMsgData> struct FailOnInvalid { using mcTag = mc::FailOnInvalidTag; static constexpr comms::ErrorStatus value = TStatus; };
namespace mc { struct FieldTypeTag; }
template <typename T> struct FieldType { using mcTag = mc::FieldTypeTag; using type = T; };
namespace mc { struct FieldsImplTag; }
template <typename T> struct FieldsImpl { using mcTag = mc::FieldsImplTag; using type = T; };
namespace mc { struct FixedBitLengthTag; }
template <std::size_t TLen, bool TSignExtend = true> struct FixedBitLength { using mcTag = mc::FixedBitLengthTag; static constexpr std::size_t value = TLen; static constexpr bool signExtend = TSignExtend; };
namespace mc { struct FixedLengthTag; }
template <std::size_t TLen, bool TSignExtend = true> struct FixedLength { using mcTag = mc::FixedLengthTag; static constexpr std::size_t value = TLen; static constexpr bool signExtend = TSignExtend; };
namespace mc { struct VarLengthTag; }
template <std::size_t TMin, std::size_t TMax> struct VarLength { using mcTag = mc::VarLengthTag; static constexpr std::size_t minVal = TMin; static constexpr std::size_t maxVal = TMax; static_assert((0U < TMin) && (TMin <= TMax), "bad VarLength"); };
namespace mc { struct FrameLayerSeekFieldTag; }
template <typename T = EmptyTag> struct FrameLayerSeekField { using mcTag = mc::FrameLayerSeekFieldTag; using type = T; };
namespace mc { struct MsgIdTypeTag; }
template <typename T> struct MsgIdType { using mcTag = mc::MsgIdTypeTag; using type = T; };
namespace mc { struct MsgTypeTag; }
template <typename T> struct MsgType { using mcTag = mc::MsgTypeTag; using type = T; };
namespace mc { struct NumValueSerOffsetTag; }
template <std::intmax_t TVal> struct NumValueSerOffset { using mcTag = mc::NumValueSerOffsetTag; static constexpr std::intmax_t value = TVal; };
namespace mc { struct RemLengthMemberFieldTag; }
template <std::size_t TIdx> struct RemLengthMemberField { using mcTag = mc::RemLengthMemberFieldTag; static constexpr std::size_t value = TIdx; };
namespace mc { struct ScalingRatioTag; }
template <std::intmax_t TNum, std::intmax_t TDenom> struct ScalingRatio { using mcTag = mc::ScalingRatioTag; static constexpr std::intmax_t num = TNum; static constexpr std::intmax_t denom = TDenom; static_assert((TNum != 0) && (TDenom != 0), "bad scaling"); };
namespace mc { struct SequenceSizeFieldPrefixTag; }
template <typename T> struct SequenceSizeFieldPrefix { using mcTag = mc::SequenceSizeFieldPrefixTag; using type = T; };
namespace mc { struct SequenceSerLengthFieldPrefixTag; }
template <typename T, comms::ErrorStatus TReadErrorStatus = comms::ErrorStatus::Success> struct SequenceSerLengthFieldPrefix { using mcTag = mc::SequenceSerLengthFieldPrefixTag; using type = T; };
namespace mc { struct SequenceElemSerLengthFieldPrefixTag; }
template <typename T, comms::ErrorStatus TReadErrorStatus = comms::ErrorStatus::Success> struct SequenceElemSerLengthFieldPrefix { using mcTag = mc::SequenceElemSerLengthFieldPrefixTag; using type = T; };
namespace mc { struct SequenceElemFixedSerLengthFieldPrefixTag; }
template <typename T, comms::ErrorStatus TReadErrorStatus = comms::ErrorStatus::Success> struct SequenceElemFixedSerLengthFieldPrefix { using mcTag = mc::SequenceElemFixedSerLengthFieldPrefixTag; using type = T; };
namespace mc { struct SequenceTerminationFieldSuffixTag; }
template <typename T> struct SequenceTerminationFieldSuffix { using mcTag = mc::SequenceTerminationFieldSuffixTag; using type = T; };
namespace mc { struct SequenceTrailingFieldSuffixTag; }
template <typename T> struct SequenceTrailingFieldSuffix { using mcTag = mc::SequenceTrailingFieldSuffixTag; using type = T; };
namespace mc { struct SequenceFixedSizeTag; }
template <std::size_t TSize> struct SequenceFixedSize { using mcTag = mc::SequenceFixedSizeTag; static constexpr std::size_t value = TSize; };
namespace mc { struct StaticNumIdImplTag; }
template <std::intmax_t TId> struct StaticNumIdImpl { using mcTag = mc::StaticNumIdImplTag; static constexpr std::intmax_t value = TId; };
namespace mc { struct ExtendingClassTag; }
template <typename T> struct ExtendingClass { using mcTag = mc::ExtendingClassTag; using type = T; };
namespace mc { struct UnitsTag; }
struct UnitsNanometers { using mcTag = mc::UnitsTag; };
struct UnitsMicrometers { using mcTag = mc::UnitsTag; };
struct UnitsMillimeters { using mcTag = mc::UnitsTag; };
struct UnitsCentimeters { using mcTag = mc::UnitsTag; };
struct UnitsMeters { using mcTag = mc::UnitsTag; };
struct UnitsKilometers { using mcTag = mc::UnitsTag; };
struct UnitsNanoseconds { using mcTag = mc::UnitsTag; };
struct UnitsMicroseconds { using mcTag = mc::UnitsTag; };
struct UnitsMilliseconds { using mcTag = mc::UnitsTag; };
struct UnitsSeconds { using mcTag = mc::UnitsTag; };
struct UnitsMinutes { using mcTag = mc::UnitsTag; };
struct UnitsHours { using mcTag = mc::UnitsTag; };
struct UnitsDays { using mcTag = mc::UnitsTag; };
struct UnitsWeeks { using mcTag = mc::UnitsTag; };
struct UnitsNanometersPerSecond { using mcTag = mc::UnitsTag; };
struct UnitsMicrometersPerSecond { using mcTag = mc::UnitsTag; };
struct UnitsMillimetersPerSecond { using mcTag = mc::UnitsTag; };
struct UnitsCentimetersPerSecond { using mcTag = mc::UnitsTag; };
struct UnitsMetersPerSecond { using mcTag = mc::UnitsTag; };
struct UnitsKilometersPerSecond { using mcTag = mc::UnitsTag; };
struct UnitsKilometersPerHour { using mcTag = mc::UnitsTag; };
struct UnitsHertz { using mcTag = mc::UnitsTag; };
struct UnitsKilohertz { using mcTag = mc::UnitsTag; };
struct UnitsMegahertz { using mcTag = mc::UnitsTag; };
struct UnitsGigahertz { using mcTag = mc::UnitsTag; };
struct UnitsDegrees { using mcTag = mc::UnitsTag; };
struct UnitsRadians { using mcTag = mc::UnitsTag; };
struct UnitsNanoamps { using mcTag = mc::UnitsTag; };
struct UnitsMicroamps { using mcTag = mc::UnitsTag; };
struct UnitsMilliamps { using mcTag = mc::UnitsTag; };
struct UnitsAmps { using mcTag = mc::UnitsTag; };
struct UnitsKiloamps { using mcTag = mc::UnitsTag; };
struct UnitsNanovolts { using mcTag = mc::UnitsTag; };
struct UnitsMicrovolts { using mcTag = mc::UnitsTag; };
struct UnitsMillivolts { using mcTag = mc::UnitsTag; };
struct UnitsVolts { using mcTag = mc::UnitsTag; };
struct UnitsKilovolts { using mcTag = mc::UnitsTag; };
struct UnitsBytes { using mcTag = mc::UnitsTag; };
struct UnitsKilobytes { using mcTag = mc::UnitsTag; };
struct UnitsMegabytes { using mcTag = mc::UnitsTag; };
struct UnitsGigabytes { using mcTag = mc::UnitsTag; };
struct UnitsTerabytes { using mcTag = mc::UnitsTag; };
} // namespace def
namespace app {
struct IdInfoInterface { struct mcTag; };
struct LengthInfoInterface { struct mcTag; };
struct NameInterface { struct mcTag; };
struct RefreshInterface { struct mcTag; };
struct ValidCheckInterface { struct mcTag; };
struct InPlaceAllocation { struct mcTag; };
struct NoDispatchImpl { struct mcTag; };
struct NoReadImpl { struct mcTag; };
struct NoRefreshImpl { struct mcTag; };
struct NoWriteImpl { struct mcTag; };
struct NoLengthImpl { struct mcTag; };
struct NoValidImpl { struct mcTag; };
struct NoVirtualDestructor { struct mcTag; };
struct OrigDataView { struct mcTag; };
struct SequenceFixedSizeUseFixedSizeStorage { struct mcTag; };
struct SupportGenericMessageTag { struct mcTag; };
namespace mc { struct FixedSizeStorageTag; }
template <std::size_t TSize> struct FixedSizeStorage { using mcTag = mc::FixedSizeStorageTag; static constexpr std::size_t value = TSize; };
namespace mc { struct HandlerTag; }
template <typename T> struct Handler { using mcTag = mc::HandlerTag; using type = T; };
namespace mc { struct ReadIteratorTag; }
template <typename T> struct ReadIterator { using mcTag = mc::ReadIteratorTag; using type = T; };
namespace mc { struct WriteIteratorTag; }
template <typename T> struct WriteIterator { using mcTag = mc::WriteIteratorTag; using type = T; };
namespace mc { struct SupportGenericMessageTag; }
template <typename T> struct SupportGenericMessage { using mcTag = mc::SupportGenericMessageTag; using type = T; };
namespace mc { struct MsgFactoryTag; }
template <template <typename, typename, typename...> class TFactory> struct MsgFactoryTempl { using mcTag = mc::MsgFactoryTag; template <typename A, typename B, typename... C> using type = TFactory<A, B, C...>; };
} // namespace app
} // namespace option
} // namespace comms
