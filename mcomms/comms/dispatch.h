#pragma once
#include "comms/MessageBase.h"
namespace comms {
namespace details {
template <typename TAll, std::size_t I = 0U, bool TDone = (std::tuple_size<TAll>::value <= I)> struct Disp
{
    using M = typename std::tuple_element<I, TAll>::type;
    template <typename TId, typename TMsg, typename H> static void go(TId id, std::size_t idx, TMsg& msg, H& h)
    {
        if (static_cast<std::intmax_t>(M::doGetId()) == static_cast<std::intmax_t>(id)) {
            if (idx == 0U) { h.handle(static_cast<M&>(msg)); return; }
            --idx;
        }
        Disp<TAll, I + 1U>::go(id, idx, msg, h);
    }
};
template <typename TAll, std::size_t I> struct Disp<TAll, I, true>
{ template <typename TId, typename TMsg, typename H> static void go(TId, std::size_t, TMsg& msg, H& h) { h.handle(msg); } };
struct AutoDispatcher {};
template <typename TDisp, typename TAll, typename TMsg, typename H>
void dispatchAny(std::intmax_t id, std::size_t idx, TMsg& msg, H& h)
{
    static_cast<void>(id); static_cast<void>(idx);
    if constexpr (!std::is_same<TDisp, AutoDispatcher>::value) { TDisp::dispatch(id, idx, msg, h); }
    else if constexpr (TMsg::hasDispatch()) { msg.dispatch(h); }
    else { Disp<TAll>::go(id, idx, msg, h); }
}
}
template <typename TAll, typename TId, typename TMsg, typename H> void dispatchMsg(TId id, TMsg& msg, H& h)
{ details::dispatchAny<details::AutoDispatcher, TAll>(static_cast<std::intmax_t>(id), 0U, msg, h); }
template <typename TAll, typename TMsg, typename H> void dispatchMsg(TMsg& msg, H& h)
{ details::dispatchAny<details::AutoDispatcher, TAll>(static_cast<std::intmax_t>(msg.getId()), 0U, msg, h); }
template <typename TAll> using MsgDispatcher = details::AutoDispatcher;
}
