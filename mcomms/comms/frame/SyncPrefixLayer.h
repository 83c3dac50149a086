#pragma once
#include "comms/details/frame.h"
namespace comms { namespace frame {
template <typename TField, typename TNext, typename... TOptions>
class SyncPrefixLayer : public details::LayerBase<TField, TNext>
{
    using Base = details::LayerBase<TField, TNext>;
    using McOpts = details::Flatten<TOptions...>;
    static constexpr bool McSeek = details::hasTag<option::def::mc::FrameLayerSeekFieldTag, McOpts>();
    using McEsc = typename details::Find<option::def::mc::FrameLayerSeekFieldTag, details::NoSeek, McOpts>::type;
public:
    using Field = TField;
    using AllFields = typename Base::AllFields;
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcRead(TF& fields, TMsg& msg, TIter& iter, std::size_t len, details::FrameCtx& ctx)
    {
        auto& f = Base::accessCachedField(fields);
        if constexpr (McSeek) {
            std::size_t pos = 0U;
            if (!details::seekSync<McEsc>(f, iter, len, pos)) { ctx.addMissing(1U, 0U); return ErrorStatus::NotEnoughData; }
            std::advance(iter, static_cast<std::ptrdiff_t>(pos));
            len -= pos;
        }
        auto from = iter;
        auto es = f.read(iter, len);
        if (es == ErrorStatus::NotEnoughData) { ctx.addMissing(f.length() + TNext::mcStaticLength(), len); }
        if (es != ErrorStatus::Success) { return es; }
        if (!(f == Field())) { return ErrorStatus::ProtocolError; }
        return this->m_next.mcRead(fields, msg, iter, len - static_cast<std::size_t>(std::distance(from, iter)), ctx);
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcWrite(TF& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        f = Field();
        auto es = f.write(iter, len);
        if (es != ErrorStatus::Success) { return es; }
        return this->m_next.mcWrite(fields, msg, iter, len - f.length());
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcUpdate(TF& fields, const TMsg* msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        auto l = f.length();
        if (len < l) { return ErrorStatus::BufferOverflow; }
        std::advance(iter, static_cast<std::ptrdiff_t>(l));
        return this->m_next.mcUpdate(fields, msg, iter, len - l);
    }
    template <typename TMsg> std::size_t mcLength(const TMsg& msg) const { return Field().length() + this->m_next.mcLength(msg); }
    static constexpr std::size_t mcStaticLength() { return Field::minLength() + TNext::mcStaticLength(); }
    MC_FRAME_API
};
}}
