#pragma once
namespace comms
{
enum class MsgFactoryCreateFailureReason
{
    None,
    InvalidId,
    AllocFailure,
    NumOfValues
};
} // namespace comms
