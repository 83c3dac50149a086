#pragma once
#include "comms/details/frame.h"
namespace comms { namespace frame {
template <typename TField, typename TNext, typename... TOptions>
class MsgSizeLayer : public details::LayerBase<TField, TNext>
{
    using Base = details::LayerBase<TField, TNext>;
public:
    using Field = TField;
    using AllFields = typename Base::AllFields;
    static std::size_t getRemainingSizeFromField(const Field& f) { return static_cast<std::size_t>(f.getValue()); }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcRead(TF& fields, TMsg& msg, TIter& iter, std::size_t len, details::FrameCtx& ctx)
    {
        auto& f = Base::accessCachedField(fields);
        auto from = iter;
        auto es = f.read(iter, len);
        if (es == ErrorStatus::NotEnoughData) { ctx.addMissing(f.length() + TNext::mcStaticLength(), len); }
        if (es != ErrorStatus::Success) { return es; }
        len -= static_cast<std::size_t>(std::distance(from, iter));
        auto rem = getRemainingSizeFromField(f);
        if (len < rem) { ctx.addMissing(rem, len); return ErrorStatus::NotEnoughData; }
        auto dataFrom = iter;
        es = this->m_next.mcRead(fields, msg, iter, rem, ctx);
        if (es == ErrorStatus::NotEnoughData) {
            ctx.missing = 0U;
            details::MsgAcc<TMsg>::reset(msg);
            return ErrorStatus::ProtocolError;
        }
        if (es != ErrorStatus::ProtocolError) {
            auto consumed = static_cast<std::size_t>(std::distance(dataFrom, iter));
            if (consumed < rem) { std::advance(iter, static_cast<std::ptrdiff_t>(rem - consumed)); }
        }
        return es;
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcWrite(TF& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        f.setValue(this->m_next.mcLength(msg));
        auto es = f.write(iter, len);
        if (es != ErrorStatus::Success) { return es; }
        return this->m_next.mcWrite(fields, msg, iter, len - f.length());
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcUpdate(TF& fields, const TMsg* msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        f.setValue(len - Field::minLength());
        auto es = f.write(iter, len);
        if (es != ErrorStatus::Success) { return es; }
        return this->m_next.mcUpdate(fields, msg, iter, len - f.length());
    }
    template <typename TMsg> std::size_t mcLength(const TMsg& msg) const
    {
        auto rem = this->m_next.mcLength(msg);
        Field f; f.setValue(rem);
        return f.length() + rem;
    }
    static constexpr std::size_t mcStaticLength() { return Field::minLength() + TNext::mcStaticLength(); }
    MC_FRAME_API
};
}}
