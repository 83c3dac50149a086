#pragma once
#include "comms/details/frame.h"
#include "comms/MsgFactory.h"
namespace comms { namespace frame {
namespace mc {
struct DefFactory { template <typename A, typename B, typename... C> using type = comms::MsgFactory<A, B, C...>; };
}
template <typename TField, typename TMessage, typename TAllMessages, typename TNext, typename... TOptions>
class MsgIdLayer : public details::LayerBase<TField, TNext>
{
    using Base = details::LayerBase<TField, TNext>;
    using McOpts = details::Flatten<TOptions...>;
    using FactoryOpt = details::Find<option::app::mc::MsgFactoryTag, mc::DefFactory, McOpts>;
    using GenOpt = typename std::conditional<details::hasTag<option::app::mc::SupportGenericMessageTag, McOpts>(),
        details::Find<option::app::mc::SupportGenericMessageTag, option::app::EmptyOption, McOpts>, option::app::EmptyOption>::type;
    using InPlaceOpt = typename std::conditional<details::hasOpt<option::app::InPlaceAllocation, McOpts>(), option::app::InPlaceAllocation, option::app::EmptyOption>::type;
public:
    using Field = TField;
    using AllFields = typename Base::AllFields;
    using Message = TMessage;
    using AllMessages = TAllMessages;
    using MsgFactory = typename FactoryOpt::template type<TMessage, TAllMessages, InPlaceOpt, GenOpt>;
    using MsgPtr = typename MsgFactory::MsgPtr;
    using MsgIdType = typename TMessage::MsgIdType;
    using MsgIdParamType = typename TMessage::MsgIdParamType;
    using CreateFailureReason = typename MsgFactory::CreateFailureReason;

    MsgPtr createMsg(MsgIdParamType id, unsigned idx = 0U, CreateFailureReason* reason = nullptr) { return m_factory.createMsg(id, idx, reason); }
    static MsgIdType getMsgIdFromField(const Field& f) { return static_cast<MsgIdType>(f.getValue()); }

    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcRead(TF& fields, TMsg& msg, TIter& iter, std::size_t len, details::FrameCtx& ctx)
    {
        using Acc = details::MsgAcc<TMsg>;
        auto& f = Base::accessCachedField(fields);
        auto from = iter;
        auto es = f.read(iter, len);
        if (es == ErrorStatus::NotEnoughData) { ctx.addMissing(f.length() + TNext::mcStaticLength(), len); }
        if (es != ErrorStatus::Success) { return es; }
        len -= static_cast<std::size_t>(std::distance(from, iter));
        auto id = getMsgIdFromField(f);
        ctx.id = static_cast<std::intmax_t>(id);
        if constexpr (!Acc::isPtr()) {
            MsgIdType own = id;
            if constexpr (details::isImplMsg<typename Acc::Type>()) { own = static_cast<MsgIdType>(Acc::Type::doGetId()); }
            else if constexpr (Acc::Type::hasGetId()) { own = msg.getId(); }
            if (own != id) { return ErrorStatus::InvalidMsgId; }
            return this->m_next.mcRead(fields, msg, iter, len, ctx);
        }
        else {
            auto payloadFrom = iter;
            es = ErrorStatus::InvalidMsgId;
            unsigned idx = 0U;
            while (true) {
                CreateFailureReason reason = CreateFailureReason::None;
                if (msg) { msg.reset(); }
                msg = m_factory.createMsg(id, idx, &reason);
                ctx.idx = idx;
                if (!msg) {
                    if (reason == CreateFailureReason::AllocFailure) { return ErrorStatus::MsgAllocFailure; }
                    break;
                }
                iter = payloadFrom;
                es = mcReadAs(fields, msg, id, idx, iter, len, ctx);
                if (es == ErrorStatus::Success) { return es; }
                if (!msg) { return es; } // dropped by one of the inner layers
                msg.reset();
                ++idx;
            }
            auto lastEs = es;
            auto gen = m_factory.createGenericMsg(id, 0U);
            if (gen) {
                msg = std::move(gen);
                iter = payloadFrom;
                es = this->m_next.mcRead(fields, msg, iter, len, ctx);
                if (es == ErrorStatus::Success) { return es; }
                msg.reset();
                return es;
            }
            if (lastEs == ErrorStatus::InvalidMsgId) {
                iter = payloadFrom;
                es = this->m_next.mcRead(fields, msg, iter, len, ctx); // report payload, consume suffix layers
                if ((es == ErrorStatus::NotEnoughData) || (es == ErrorStatus::ProtocolError)) { return es; }
                return ErrorStatus::InvalidMsgId;
            }
            return lastEs;
        }
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcWrite(TF& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        if constexpr (details::isImplMsg<TMsg>()) { f.setValue(msg.doGetId()); }
        else { f.setValue(msg.getId()); }
        auto es = f.write(iter, len);
        if (es != ErrorStatus::Success) { return es; }
        return this->m_next.mcWrite(fields, msg, iter, len - f.length());
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcUpdate(TF& fields, const TMsg* msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        auto from = iter;
        auto es = f.read(iter, len);
        if (es != ErrorStatus::Success) { return es; }
        return this->m_next.mcUpdate(fields, msg, iter, len - static_cast<std::size_t>(std::distance(from, iter)));
    }
    template <typename TMsg> std::size_t mcLength(const TMsg& msg) const
    {
        Field f;
        if constexpr (details::isImplMsg<TMsg>()) { f.setValue(msg.doGetId()); }
        else if constexpr (TMsg::hasGetId()) { f.setValue(msg.getId()); }
        return f.length() + this->m_next.mcLength(msg);
    }
    static constexpr std::size_t mcStaticLength() { return Field::minLength() + TNext::mcStaticLength(); }
    MC_FRAME_API
private:
    // pointer-like access to the actual type of the message
    template <typename P, typename M> struct McActual
    {
        P* p;
        explicit operator bool() const { return static_cast<bool>(*p); }
        M& operator*() { return static_cast<M&>(**p); }
        M* operator->() { return &static_cast<M&>(**p); }
        void reset() { p->reset(); }
    };
    template <std::size_t I, typename TF, typename TMsg, typename TIter>
    ErrorStatus mcReadStatic(TF& fields, TMsg& msg, MsgIdType id, unsigned idx, TIter& iter, std::size_t len, details::FrameCtx& ctx)
    {
        if constexpr (I < std::tuple_size<TAllMessages>::value) {
            using M = typename std::tuple_element<I, TAllMessages>::type;
            if (static_cast<std::intmax_t>(M::doGetId()) == static_cast<std::intmax_t>(id)) {
                if (idx == 0U) {
                    McActual<TMsg, M> w{&msg};
                    return this->m_next.mcRead(fields, w, iter, len, ctx);
                }
                --idx;
            }
            return mcReadStatic<I + 1U>(fields, msg, id, idx, iter, len, ctx);
        }
        else { return ErrorStatus::NotSupported; }
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcReadAs(TF& fields, TMsg& msg, MsgIdType id, unsigned idx, TIter& iter, std::size_t len, details::FrameCtx& ctx)
    {
        if constexpr (TMessage::hasRead()) { static_cast<void>(id); static_cast<void>(idx); return this->m_next.mcRead(fields, msg, iter, len, ctx); }
        else { return mcReadStatic<0U>(fields, msg, id, idx, iter, len, ctx); }
    }
    MsgFactory m_factory;
};
}}
