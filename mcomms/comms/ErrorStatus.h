// mini-COMMS: independent re-implementation of the COMMS library API used by
// the generated code.  Written for /verif; see DESIGN.md.
#pragma once
namespace comms
{
enum class ErrorStatus
{
    Success,
    UpdateRequired,
    NotEnoughData,
    ProtocolError,
    BufferOverflow,
    InvalidMsgId,
    InvalidMsgData,
    MsgAllocFailure,
    NotSupported,
    NumOfErrorStatuses
};
} // namespace comms
