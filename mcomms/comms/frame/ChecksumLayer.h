#pragma once
#include "comms/details/frame.h"
#include "comms/cast.h"
namespace comms { namespace frame {
namespace mc {
// TPrefix: the checksum precedes the data it protects
template <typename TActual, bool TPrefix, typename TField, typename TCalc, typename TNext, typename... TOptions>
class ChecksumBase : public details::LayerBase<TField, TNext>
{
    using Base = details::LayerBase<TField, TNext>;
    using McOpts = details::Flatten<TOptions...>;
    static constexpr bool McVerify = details::hasOpt<option::def::FrameLayerVerifyBeforeRead, McOpts>();
public:
    using Field = TField;
    using AllFields = typename Base::AllFields;
    using Ext = typename details::Find<option::def::mc::ExtendingClassTag, details::Ident<TActual>, McOpts>::type;

    // default implementation of the hooks
    template <typename TMsg, typename TIter>
    static typename Field::ValueType calculateChecksum(const TMsg*, TIter& iter, std::size_t len, bool& ok)
    { ok = true; return static_cast<typename Field::ValueType>(TCalc()(iter, len)); }
    template <typename TMsg, typename TIter>
    static ErrorStatus readField(const TMsg*, Field& f, TIter& iter, std::size_t len) { return f.read(iter, len); }
    template <typename TMsg, typename TIter>
    static ErrorStatus writeField(const TMsg*, const Field& f, TIter& iter, std::size_t len) { return f.write(iter, len); }
    template <typename TMsg> static std::size_t doFieldLength(const TMsg&) { return Field().length(); }

    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcRead(TF& fields, TMsg& msg, TIter& iter, std::size_t len, details::FrameCtx& ctx)
    {
        using Acc = details::MsgAcc<TMsg>;
        auto& f = Base::accessCachedField(fields);
        if constexpr (TPrefix) {
            auto from = iter;
            auto es = f.read(iter, len);
            if (es == ErrorStatus::NotEnoughData) { ctx.addMissing(f.length() + TNext::mcStaticLength(), len); }
            if (es != ErrorStatus::Success) { return es; }
            len -= static_cast<std::size_t>(std::distance(from, iter));
            if constexpr (McVerify) {
                auto at = iter;
                if (!mcMatch(Acc::get(msg), f, at, len)) { return ErrorStatus::ProtocolError; }
                return this->m_next.mcRead(fields, msg, iter, len, ctx);
            }
            auto data = iter;
            es = this->m_next.mcRead(fields, msg, iter, len, ctx);
            if ((es == ErrorStatus::NotEnoughData) || (es == ErrorStatus::ProtocolError)) { return es; }
            auto n = static_cast<std::size_t>(std::distance(data, iter));
            if (!mcMatch(Acc::get(msg), f, data, n)) { Acc::reset(msg); return ErrorStatus::ProtocolError; }
            return es;
        }
        else {
            auto fl = Field::minLength();
            if (len < fl) { ctx.addMissing(fl + TNext::mcStaticLength(), len); return ErrorStatus::NotEnoughData; }
            auto data = iter;
            if constexpr (McVerify) {
                auto at = iter; std::advance(at, static_cast<std::ptrdiff_t>(len - fl));
                auto es = f.read(at, fl);
                if (es != ErrorStatus::Success) { return es; }
                auto d = data;
                if (!mcMatch(Acc::get(msg), f, d, len - fl)) { return ErrorStatus::ProtocolError; }
                es = this->m_next.mcRead(fields, msg, iter, len - fl, ctx);
                if ((es != ErrorStatus::NotEnoughData) && (es != ErrorStatus::ProtocolError)) { iter = at; }
                return es;
            }
            constexpr bool Custom = !std::is_same<Ext, TActual>::value;
            auto es = this->m_next.mcRead(fields, msg, iter, Custom ? len : (len - fl), ctx);
            if (es == ErrorStatus::NotEnoughData) { ctx.missing += fl; }
            if ((es == ErrorStatus::NotEnoughData) || (es == ErrorStatus::ProtocolError)) { return es; }
            auto n = static_cast<std::size_t>(std::distance(data, iter));
            auto fes = Ext::readField(mcPtr(Acc::get(msg)), f, iter, len - n);
            if (fes != ErrorStatus::Success) {
                if (fes == ErrorStatus::NotEnoughData) { ctx.addMissing(fl, len - n); }
                Acc::reset(msg); return fes;
            }
            if (!mcMatch(Acc::get(msg), f, data, n)) { Acc::reset(msg); return ErrorStatus::ProtocolError; }
            return es;
        }
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcWrite(TF& fields, const TMsg& msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        auto fl = Ext::doFieldLength(msg);
        if (len < fl) { return ErrorStatus::BufferOverflow; }
        if constexpr (TPrefix) {
            auto at = iter;
            auto es = f.write(iter, len);
            if (es != ErrorStatus::Success) { return es; }
            auto data = iter;
            es = this->m_next.mcWrite(fields, msg, iter, len - fl);
            if (es != ErrorStatus::Success) { return es; }
            return mcStore(&msg, f, data, iter, at, fl);
        }
        else {
            auto data = iter;
            auto es = this->m_next.mcWrite(fields, msg, iter, len - fl);
            if (es != ErrorStatus::Success) { return es; }
            auto end = iter;
            return mcStore(&msg, f, data, end, iter, len - static_cast<std::size_t>(mcDist(data, end)));
        }
    }
    template <typename TF, typename TMsg, typename TIter>
    ErrorStatus mcUpdate(TF& fields, const TMsg* msg, TIter& iter, std::size_t len) const
    {
        auto& f = Base::accessCachedField(fields);
        auto fl = mcFl(msg);
        if (len < fl) { return ErrorStatus::BufferOverflow; }
        if constexpr (TPrefix) {
            auto at = iter;
            std::advance(iter, static_cast<std::ptrdiff_t>(fl));
            auto data = iter;
            auto es = this->m_next.mcUpdate(fields, msg, iter, len - fl);
            if (es != ErrorStatus::Success) { return es; }
            return mcStore(msg, f, data, iter, at, fl);
        }
        else {
            auto data = iter;
            auto es = this->m_next.mcUpdate(fields, msg, iter, len - fl);
            if (es != ErrorStatus::Success) { return es; }
            auto end = iter;
            return mcStore(msg, f, data, end, iter, fl);
        }
    }
    template <typename TMsg> std::size_t mcLength(const TMsg& msg) const { return Ext::doFieldLength(msg) + this->m_next.mcLength(msg); }
    static constexpr std::size_t mcStaticLength() { return Field::minLength() + TNext::mcStaticLength(); }
    MC_FRAME_API
private:
    template <typename M> static const M* mcPtr(M* m) { return m; }
    static std::size_t mcFl(const details::NoMsgForUpdate*) { return Field().length(); }
    template <typename M> static std::size_t mcFl(const M* m) { return Ext::doFieldLength(*m); }
    template <typename M, typename TIter> static bool mcMatch(M* msg, const Field& f, TIter& iter, std::size_t len)
    {
        bool ok = false;
        auto c = Ext::calculateChecksum(mcPtr(msg), iter, len, ok);
        return ok && (static_cast<typename Field::ValueType>(f.getValue()) == c);
    }
    template <typename I> static auto mcDist(I a, I b) -> decltype(b - a) { return b - a; }
    template <typename I> struct RO { using type = I; };
    template <typename TMsg, typename TIter, typename TEnd, typename TAt>
    ErrorStatus mcStore(const TMsg* msg, Field& f, TIter data, TEnd end, TAt& at, std::size_t len) const
    {
        bool ok = false;
        auto n = static_cast<std::size_t>(mcDist(data, end));
        auto c = mcCalc(msg, data, n, ok);
        if (!ok) { return ErrorStatus::ProtocolError; }
        f.setValue(c);
        return mcWr(msg, f, at, len);
    }
    template <typename I> static typename Field::ValueType mcCalc(const details::NoMsgForUpdate*, I& it, std::size_t n, bool& ok)
    { ok = true; return static_cast<typename Field::ValueType>(TCalc()(it, n)); }
    template <typename M, typename I> static typename Field::ValueType mcCalc(const M* m, I& it, std::size_t n, bool& ok)
    { return Ext::calculateChecksum(m, it, n, ok); }
    template <typename I> static ErrorStatus mcWr(const details::NoMsgForUpdate*, const Field& f, I& it, std::size_t len) { return f.write(it, len); }
    template <typename M, typename I> static ErrorStatus mcWr(const M* m, const Field& f, I& it, std::size_t len) { return Ext::writeField(m, f, it, len); }
};
}
template <typename TField, typename TCalc, typename TNext, typename... TOptions>
class ChecksumLayer : public mc::ChecksumBase<ChecksumLayer<TField, TCalc, TNext, TOptions...>, false, TField, TCalc, TNext, TOptions...> {};
}}
