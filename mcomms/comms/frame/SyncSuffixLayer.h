#pragma once
#include "comms/details/frame.h"
namespace comms { namespace frame {
template <typename TField, typename TNext, typename... TOptions>
class SyncSuffixLayer : public details::LayerBase<TField, TNext>
{
    using Base = details::LayerBase<TField, TNext>;
    using McOpts = details::Flatten<TOptions...>;
    static constexpr bool McVerify = details::hasOpt<option::def::FrameLayerVerifyBeforeRead, McOpts>();
    static constexpr bool McSeek = details::hasTag<option::def::mc::FrameLayerSeekFieldTag, McOpts>();
    using McEsc = typename details::Find<option::def::mc::FrameLayerSeekFieldTag, details::NoSeek, McOpts>::type;
public:
    using Field = TField;
    using AllFields = typename Base::AllFields;
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcRead(TF& fields, TMsg& msg, TIter& iter, std::size_t len, details::FrameCtx& ctx)
    {
        auto& f = Base::accessCachedField(fields);
        auto fl = Field().length();
        if (len < fl) { ctx.addMissing(fl + TNext::mcStaticLength(), len); return ErrorStatus::NotEnoughData; }
        if constexpr (McSeek) {
            std::size_t pos = 0U;
            if (!details::seekSync<McEsc>(f, iter, len, pos)) { ctx.addMissing(1U, 0U); return ErrorStatus::NotEnoughData; }
            auto end = iter; std::advance(end, static_cast<std::ptrdiff_t>(pos + fl));
            auto es = this->m_next.mcRead(fields, msg, iter, pos, ctx);
            if (es == ErrorStatus::NotEnoughData) { details::MsgAcc<TMsg>::reset(msg); ctx.missing = 0U; return ErrorStatus::ProtocolError; }
            if (es != ErrorStatus::ProtocolError) { iter = end; }
            return es;
        }
        else {
            if constexpr (McVerify) {
                auto at = iter; std::advance(at, static_cast<std::ptrdiff_t>(len - fl));
                auto es = f.read(at, fl);
                if (es != ErrorStatus::Success) { return es; }
                if (!(f == Field())) { return ErrorStatus::ProtocolError; }
                es = this->m_next.mcRead(fields, msg, iter, len - fl, ctx);
                if ((es != ErrorStatus::NotEnoughData) && (es != ErrorStatus::ProtocolError)) { iter = at; }
                return es;
            }
            auto from = iter;
            auto es = this->m_next.mcRead(fields, msg, iter, len - fl, ctx);
            if (es == ErrorStatus::NotEnoughData) { ctx.missing += fl; }
            if ((es == ErrorStatus::NotEnoughData) || (es == ErrorStatus::ProtocolError)) { return es; }
            auto rem = len - static_cast<std::size_t>(std::distance(from, iter));
            auto fes = f.read(iter, rem);
            if (fes != ErrorStatus::Success) { details::MsgAcc<TMsg>::reset(msg); return fes; }
            if (!(f == Field())) { details::MsgAcc<TMsg>::reset(msg); return ErrorStatus::ProtocolError; }
            return es;
        }
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcWrite(TF& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        f = Field();
        auto fl = f.length();
        if (len < fl) { return ErrorStatus::BufferOverflow; }
        auto es = this->m_next.mcWrite(fields, msg, iter, len - fl);
        if (es != ErrorStatus::Success) { return es; }
        return f.write(iter, fl);
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcUpdate(TF& fields, const TMsg* msg, TIter& iter, std::size_t len) const
    {
        auto fl = Field().length();
        if (len < fl) { return ErrorStatus::BufferOverflow; }
        auto es = this->m_next.mcUpdate(fields, msg, iter, len - fl);
        if (es != ErrorStatus::Success) { return es; }
        std::advance(iter, static_cast<std::ptrdiff_t>(fl));
        return es;
    }
    template <typename TMsg> std::size_t mcLength(const TMsg& msg) const { return Field().length() + this->m_next.mcLength(msg); }
    static constexpr std::size_t mcStaticLength() { return Field::minLength() + TNext::mcStaticLength(); }
    MC_FRAME_API
};
}}
