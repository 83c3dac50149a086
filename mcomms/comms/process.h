#pragma once
#include "comms/dispatch.h"
#include "comms/details/frame.h"
#include "comms/iterator.h"
namespace comms {
namespace details {
template <typename F> struct FrameAll;
template <typename L> struct FrameAllNext { using type = typename FrameAll<typename L::McNextType>::type; };
template <typename F> struct FrameAll
{
    template <typename L> static Ident<typename L::AllMessages> test(typename L::AllMessages*);
    template <typename L> static FrameAllNext<L> test(...);
    using type = typename decltype(test<F>(nullptr))::type;
};
template <typename D, typename TIter, typename F, typename P, typename H, typename... TArgs>
ErrorStatus procSingle(TIter& iter, std::size_t len, F& frame, P& msg, H& h, const TArgs&... args)
{
    std::intmax_t id = 0; std::size_t idx = 0U;
    auto es = frame.read(msg, iter, len, comms::frame::msgId(id), comms::frame::msgIndex(idx), args...);
    if (es != ErrorStatus::Success) { return es; }
    using Acc = MsgAcc<P>;
    auto* m = Acc::get(msg);
    if (m == nullptr) { return es; }
    if constexpr (Acc::isPtr()) { dispatchAny<D, typename FrameAll<F>::type>(id, idx, *m, h); }
    else { h.handle(*m); }
    return es;
}
template <typename M, typename I, typename = void> struct McIterFor { static I get(I i) { return i; } };
template <typename M, typename I> struct McIterFor<M, I, typename MakeVoid<typename M::ReadIterator>::type>
{ static typename M::ReadIterator get(I i) { return typename M::ReadIterator(i); } };
template <typename D, typename TIter, typename F, typename H>
std::size_t procAll(TIter begin, std::size_t len, F& frame, H& h)
{
    std::size_t consumed = 0U;
    using Msg = typename MsgAcc<typename F::MsgPtr>::Type;
    while (consumed < len) {
        auto from = begin; std::advance(from, static_cast<std::ptrdiff_t>(consumed));
        auto it = McIterFor<Msg, TIter>::get(from);
        auto before = it;
        typename F::MsgPtr msg;
        auto es = procSingle<D>(it, len - consumed, frame, msg, h);
        if (es == ErrorStatus::NotEnoughData) { break; }
        if (es == ErrorStatus::ProtocolError) { ++consumed; continue; }
        auto n = static_cast<std::size_t>(std::distance(before, it));
        consumed += (n == 0U) ? 1U : n;
    }
    return consumed;
}
}
template <typename TIter, typename F, typename P, typename... A>
ErrorStatus processSingle(TIter& iter, std::size_t len, F& frame, P& msg, const A&... a) { return frame.read(msg, iter, len, a...); }
template <typename TIter, typename F, typename P, typename H, typename... A>
ErrorStatus processSingleWithDispatch(TIter& iter, std::size_t len, F& frame, P& msg, H& h, const A&... a)
{ return details::procSingle<details::AutoDispatcher>(iter, len, frame, msg, h, a...); }
template <typename D, typename TIter, typename F, typename P, typename H, typename... A>
ErrorStatus processSingleWithDispatchViaDispatcher(TIter& iter, std::size_t len, F& frame, P& msg, H& h, const A&... a)
{ return details::procSingle<D>(iter, len, frame, msg, h, a...); }
template <typename TIter, typename F, typename H>
std::size_t processAllWithDispatch(TIter iter, std::size_t len, F& frame, H& h) { return details::procAll<details::AutoDispatcher>(iter, len, frame, h); }
template <typename D, typename TIter, typename F, typename H>
std::size_t processAllWithDispatchViaDispatcher(TIter iter, std::size_t len, F& frame, H& h) { return details::procAll<D>(iter, len, frame, h); }
}
