#pragma once
#include "comms/details/frame.h"
namespace comms { namespace frame {
namespace mc {
struct DefData { using type = comms::field::ArrayList<comms::Field<comms::option::def::BigEndian>, std::uint8_t>; };
}
template <typename... TOptions>
class MsgDataLayer
{
    using McOpts = details::Flatten<TOptions...>;
public:
    using Field = typename details::Find<option::def::mc::FieldTypeTag, mc::DefData, McOpts>::type;
    using AllFields = std::tuple<Field>;
    using MsgPtr = details::NoMsgPtr;
    static constexpr std::size_t McDepth = 1U;
    template <typename TFields> static Field& accessCachedField(TFields& f) { return std::get<std::tuple_size<TFields>::value - 1U>(f); }

    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcRead(TF& f, TMsg& msg, TIter& iter, std::size_t len, details::FrameCtx& ctx)
    {
        using Acc = details::MsgAcc<TMsg>;
        using M = typename Acc::Type;
        ctx.payload = (len == 0U) ? nullptr : static_cast<const void*>(&(*iter));
        ctx.payloadLen = len;
        { auto it = iter; static_cast<void>(accessCachedField(f).read(it, len)); }
        auto* m = Acc::get(msg);
        if (m == nullptr) { return ErrorStatus::InvalidMsgId; }
        auto from = iter;
        ErrorStatus es = ErrorStatus::NotSupported;
        if constexpr (details::isImplMsg<M>()) { es = details::mcMsgRead(*m, iter, len); }
        else if constexpr (M::hasRead()) {
            typename M::ReadIterator it(iter);
            auto begin = it;
            es = m->read(it, len);
            std::advance(iter, std::distance(begin, it));
        }
        if (es == ErrorStatus::NotEnoughData) {
            ctx.addMissing(1U, 0U);
            if constexpr (details::isImplMsg<M>()) { ctx.addMissing(M::doMinLength(), len); }
            else if constexpr (M::hasLength()) { ctx.addMissing(m->length(), len); }
        }
        if (es == ErrorStatus::Success) {
            // the cached payload field is what the message consumed
            auto it = from;
            static_cast<void>(accessCachedField(f).read(it, static_cast<std::size_t>(std::distance(from, iter))));
        }
        return es;
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcWrite(TF&, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        if constexpr (details::isImplMsg<TMsg>()) { return msg.doWrite(iter, len); }
        else if constexpr (TMsg::hasWrite()) { return msg.write(iter, len); }
        else { return ErrorStatus::NotSupported; }
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcUpdate(TF&, const TMsg*, TIter& iter, std::size_t len) const
    { std::advance(iter, static_cast<std::ptrdiff_t>(len)); return ErrorStatus::Success; }
    template <typename TMsg> std::size_t mcLength(const TMsg& msg) const
    {
        if constexpr (details::isImplMsg<TMsg>()) { return msg.doLength(); }
        else if constexpr (TMsg::hasLength()) { return msg.length(); }
        else { return 0U; }
    }
    static constexpr std::size_t mcStaticLength() { return 0U; }
    MC_FRAME_API
};
}}
