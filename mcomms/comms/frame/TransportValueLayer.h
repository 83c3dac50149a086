#pragma once
#include "comms/details/frame.h"
namespace comms { namespace frame {
template <typename TField, std::size_t TIdx, typename TNext, typename... TOptions>
class TransportValueLayer : public details::LayerBase<TField, TNext>
{
    using Base = details::LayerBase<TField, TNext>;
    using McOpts = details::Flatten<TOptions...>;
    static constexpr bool McPseudo = details::hasOpt<option::def::PseudoValue, McOpts>();
public:
    using Field = TField;
    using AllFields = typename Base::AllFields;
    Field& pseudoField() { static_assert(McPseudo || (sizeof(Field) == 0U), "not pseudo"); return m_pseudo; }
    const Field& pseudoField() const { return m_pseudo; }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcRead(TF& fields, TMsg& msg, TIter& iter, std::size_t len, details::FrameCtx& ctx)
    {
        auto& f = Base::accessCachedField(fields);
        if constexpr (McPseudo) { f = m_pseudo; }
        else {
            auto from = iter;
            auto es = f.read(iter, len);
            if (es == ErrorStatus::NotEnoughData) { ctx.addMissing(f.length() + TNext::mcStaticLength(), len); }
            if (es != ErrorStatus::Success) { return es; }
            len -= static_cast<std::size_t>(std::distance(from, iter));
        }
        auto* m = details::MsgAcc<TMsg>::get(msg);
        if (m != nullptr) { mcSet(*m, f); return this->m_next.mcRead(fields, msg, iter, len, ctx); }
        // the message is going to be created by the inner layer
        if constexpr (details::MsgAcc<TMsg>::isPtr() && !std::is_same<typename TNext::MsgPtr, details::NoMsgPtr>::value) {
            // the value is assigned before the data is read via wrapper
            McWrap<TMsg> w{&msg, &f};
            return this->m_next.mcRead(fields, w, iter, len, ctx);
        }
        else { return this->m_next.mcRead(fields, msg, iter, len, ctx); }
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcWrite(TF& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        details::assignField(f, std::get<TIdx>(msg.transportFields()));
        if constexpr (McPseudo) { return this->m_next.mcWrite(fields, msg, iter, len); }
        else {
            auto es = f.write(iter, len);
            if (es != ErrorStatus::Success) { return es; }
            return this->m_next.mcWrite(fields, msg, iter, len - f.length());
        }
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcUpdate(TF& fields, const TMsg* msg, TIter& iter, std::size_t len) const
    {
        if constexpr (McPseudo) { return this->m_next.mcUpdate(fields, msg, iter, len); }
        else {
            auto& f = Base::accessCachedField(fields);
            auto from = iter;
            auto es = f.read(iter, len);
            if (es != ErrorStatus::Success) { return es; }
            return this->m_next.mcUpdate(fields, msg, iter, len - static_cast<std::size_t>(std::distance(from, iter)));
        }
    }
    template <typename TMsg> std::size_t mcLength(const TMsg& msg) const
    {
        if constexpr (McPseudo) { return this->m_next.mcLength(msg); }
        else {
            Field f; details::assignField(f, std::get<TIdx>(msg.transportFields()));
            return f.length() + this->m_next.mcLength(msg);
        }
    }
    static constexpr std::size_t mcStaticLength() { return (McPseudo ? 0U : Field::minLength()) + TNext::mcStaticLength(); }
    MC_FRAME_API
private:
    template <typename M> static void mcSet(M& m, const Field& f) { details::assignField(std::get<TIdx>(m.transportFields()), f); }
    // behaves as smart pointer, assigns the transport value to any message stored in it
    template <typename P> struct McWrap
    {
        using Elem = typename details::MsgAcc<P>::Type;
        P* p; const Field* f;
        explicit operator bool() const { return static_cast<bool>(*p); }
        Elem& operator*() { return **p; }
        Elem* operator->() { return &(**p); }
        void reset() { p->reset(); }
        template <typename U> McWrap& operator=(U&& u) { *p = std::forward<U>(u); if (*p) { mcSet(**p, *f); } return *this; }
    };
    Field m_pseudo;
};
}}
