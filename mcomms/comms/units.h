#pragma once
#include <type_traits>
#include "comms/options.h"
#include "comms/details/base.h"
namespace comms { namespace units {
template <typename TField> constexpr bool isNanometers() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsNanometers>::value; }
template <typename TField> constexpr bool isMicrometers() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMicrometers>::value; }
template <typename TField> constexpr bool isMillimeters() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMillimeters>::value; }
template <typename TField> constexpr bool isCentimeters() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsCentimeters>::value; }
template <typename TField> constexpr bool isMeters() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMeters>::value; }
template <typename TField> constexpr bool isKilometers() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsKilometers>::value; }
template <typename TField> constexpr bool isNanoseconds() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsNanoseconds>::value; }
template <typename TField> constexpr bool isMicroseconds() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMicroseconds>::value; }
template <typename TField> constexpr bool isMilliseconds() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMilliseconds>::value; }
template <typename TField> constexpr bool isSeconds() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsSeconds>::value; }
template <typename TField> constexpr bool isMinutes() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMinutes>::value; }
template <typename TField> constexpr bool isHours() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsHours>::value; }
template <typename TField> constexpr bool isDays() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsDays>::value; }
template <typename TField> constexpr bool isWeeks() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsWeeks>::value; }
template <typename TField> constexpr bool isNanometersPerSecond() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsNanometersPerSecond>::value; }
template <typename TField> constexpr bool isMicrometersPerSecond() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMicrometersPerSecond>::value; }
template <typename TField> constexpr bool isMillimetersPerSecond() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMillimetersPerSecond>::value; }
template <typename TField> constexpr bool isCentimetersPerSecond() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsCentimetersPerSecond>::value; }
template <typename TField> constexpr bool isMetersPerSecond() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMetersPerSecond>::value; }
template <typename TField> constexpr bool isKilometersPerSecond() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsKilometersPerSecond>::value; }
template <typename TField> constexpr bool isKilometersPerHour() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsKilometersPerHour>::value; }
template <typename TField> constexpr bool isHertz() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsHertz>::value; }
template <typename TField> constexpr bool isKilohertz() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsKilohertz>::value; }
template <typename TField> constexpr bool isMegahertz() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMegahertz>::value; }
template <typename TField> constexpr bool isGigahertz() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsGigahertz>::value; }
template <typename TField> constexpr bool isDegrees() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsDegrees>::value; }
template <typename TField> constexpr bool isRadians() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsRadians>::value; }
template <typename TField> constexpr bool isNanoamps() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsNanoamps>::value; }
template <typename TField> constexpr bool isMicroamps() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMicroamps>::value; }
template <typename TField> constexpr bool isMilliamps() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMilliamps>::value; }
template <typename TField> constexpr bool isAmps() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsAmps>::value; }
template <typename TField> constexpr bool isKiloamps() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsKiloamps>::value; }
template <typename TField> constexpr bool isNanovolts() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsNanovolts>::value; }
template <typename TField> constexpr bool isMicrovolts() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMicrovolts>::value; }
template <typename TField> constexpr bool isMillivolts() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMillivolts>::value; }
template <typename TField> constexpr bool isVolts() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsVolts>::value; }
template <typename TField> constexpr bool isKilovolts() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsKilovolts>::value; }
template <typename TField> constexpr bool isBytes() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsBytes>::value; }
template <typename TField> constexpr bool isKilobytes() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsKilobytes>::value; }
template <typename TField> constexpr bool isMegabytes() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsMegabytes>::value; }
template <typename TField> constexpr bool isGigabytes() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsGigabytes>::value; }
template <typename TField> constexpr bool isTerabytes() { return std::is_same<typename TField::McUnits, comms::option::def::UnitsTerabytes>::value; }
}} // namespaces
