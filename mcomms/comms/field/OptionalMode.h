#pragma once
namespace comms { namespace field {
enum class OptionalMode
{
    Tentative,
    Exists,
    Missing,
    NumOfModes
};
}}
