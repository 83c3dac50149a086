#pragma once
#include <memory>
#include "comms/details/base.h"
#include "comms/details/foreach.h"
#include "comms/MessageBase.h"
#include "comms/field/ArrayList.h"
namespace comms {
namespace details {

// Everything a read of the whole stack communicates next to the message
struct FrameCtx
{
    std::size_t missing = 0U;
    std::intmax_t id = 0;
    std::size_t idx = 0U;
    const void* payload = nullptr;
    std::size_t payloadLen = 0U;
    void addMissing(std::size_t need, std::size_t have) { missing = (have < need) ? (need - have) : 1U; }
};

template <typename T> struct IsMsgImpl
{
    template <typename U> static std::true_type test(typename U::McIfOpts*);
    template <typename U> static std::false_type test(...);
    using type = decltype(test<T>(nullptr));
    static constexpr bool value = type::value;
};

// Message object or (smart) pointer to it
template <typename T, bool TIsMsg = IsMsgImpl<T>::value> struct MsgAcc;
template <typename T> struct MsgAcc<T, true>
{
    using Type = T;
    static T* get(T& m) { return &m; }
    static void reset(T&) {}
    static constexpr bool isPtr() { return false; }
};
template <typename T> struct MsgAcc<T, false>
{
    using Type = typename std::remove_reference<decltype(*std::declval<T&>())>::type;
    static Type* get(T& m) { return m ? &(*m) : nullptr; }
    static void reset(T& m) { m.reset(); }
    static constexpr bool isPtr() { return true; }
};

template <typename T> constexpr bool isImplMsg()
{
    return isMessageBase<typename std::remove_const<T>::type>();
}

template <typename A, typename B> struct TupCat;
template <typename... A, typename... B> struct TupCat<std::tuple<A...>, std::tuple<B...> > { using type = std::tuple<A..., B...>; };

template <typename TAct, typename TOpts> struct Extending { using type = typename Find<option::def::mc::ExtendingClassTag, Ident<TAct>, TOpts>::type; };

// The part common to all the layers but MsgDataLayer.
// TDepth-indexed access to the cached fields: every layer occupies the head.
template <typename TField, typename TNext>
class LayerBase
{
public:
    using Field = TField;
    using NextLayer = TNext;
    using AllFields = typename TupCat<std::tuple<TField>, typename TNext::AllFields>::type;
    using MsgPtr = typename TNext::MsgPtr;
    using McNextType = TNext;
    static constexpr std::size_t McDepth = TNext::McDepth + 1U;
    NextLayer& nextLayer() { return m_next; }
    const NextLayer& nextLayer() const { return m_next; }
    template <typename TFields> static TField& accessCachedField(TFields& f)
    { return std::get<std::tuple_size<TFields>::value - McDepth>(f); }
    template <typename TFields> static const TField& accessCachedField(const TFields& f)
    { return std::get<std::tuple_size<TFields>::value - McDepth>(f); }
protected:
    TNext m_next;
};

struct NoMsgPtr { explicit operator bool() const { return false; } void reset() {} };

// Seek for the sync field, the values following the escape one are skipped
struct NoSeek { using type = option::def::EmptyTag; };
template <typename TEsc, typename TField, typename TIter>
bool seekSync(TField& f, TIter from, std::size_t len, std::size_t& pos)
{
    auto fl = TField().length();
    pos = 0U;
    while ((pos + fl) <= len) {
        if constexpr (!std::is_same<TEsc, option::def::EmptyTag>::value) {
            TEsc e; auto at = from; std::advance(at, static_cast<std::ptrdiff_t>(pos));
            auto begin = at;
            auto es = e.read(at, len - pos);
            if ((es == ErrorStatus::Success) && (e.getValue() == TEsc().getValue())) { pos += static_cast<std::size_t>(std::distance(begin, at)) + 1U; continue; }
        }
        auto at = from; std::advance(at, static_cast<std::ptrdiff_t>(pos));
        auto es = f.read(at, len - pos);
        if ((es == ErrorStatus::Success) && (f == TField())) { return true; }
        ++pos;
    }
    return false;
}

// msgId(), msgIndex() etc. arguments
template <typename T> struct MsgIdArg { T& ref; void apply(const FrameCtx& c) const { ref = static_cast<T>(c.id); } };
template <typename T> struct MsgIndexArg { T& ref; void apply(const FrameCtx& c) const { ref = static_cast<T>(c.idx); } };
template <typename T> struct MissingArg { T& ref; void apply(const FrameCtx& c) const { ref = static_cast<T>(c.missing); } };
template <typename I, typename L> struct PayloadArg { I& it; L& len; void apply(const FrameCtx& c) const { it = reinterpret_cast<I>(c.payload); len = static_cast<L>(c.payloadLen); } };

inline void applyArgs(const FrameCtx&) {}
template <typename A, typename... R> void applyArgs(const FrameCtx& c, const A& a, const R&... r) { a.apply(c); applyArgs(c, r...); }

// Public interface added on top of every layer type
template <typename TLayer, typename... TExt>
struct LayerApi {};

// shared implementation of the outermost API, L - the layer
template <typename L, typename TMsg, typename TIter, typename... TArgs>
ErrorStatus frameRead(L& l, typename L::AllFields& f, TMsg& msg, TIter& iter, std::size_t len, const TArgs&... args)
{
    FrameCtx ctx;
    auto es = l.mcRead(f, msg, iter, len, ctx);
    applyArgs(ctx, args...);
    return es;
}
} // namespace details

namespace frame {
template <typename T> details::MsgIdArg<T> msgId(T& v) { return details::MsgIdArg<T>{v}; }
template <typename T> details::MsgIndexArg<T> msgIndex(T& v) { return details::MsgIndexArg<T>{v}; }
template <typename T> details::MissingArg<T> missingSize(T& v) { return details::MissingArg<T>{v}; }
template <typename I, typename L> details::PayloadArg<I, L> msgPayload(I& i, L& l) { return details::PayloadArg<I, L>{i, l}; }
}
} // namespace comms

// The public entry points; present in every layer (the outermost is the one used)
#define MC_FRAME_API \
    template <typename TMsg, typename TIter, typename... TArgs> \
    comms::ErrorStatus read(TMsg& msg, TIter& iter, std::size_t len, const TArgs&... args) \
    { AllFields f; return comms::details::frameRead(*this, f, msg, iter, len, args...); } \
    template <typename TMsg, typename TIter, typename... TArgs> \
    comms::ErrorStatus readFieldsCached(AllFields& f, TMsg& msg, TIter& iter, std::size_t len, const TArgs&... args) \
    { return comms::details::frameRead(*this, f, msg, iter, len, args...); } \
    template <typename TMsg, typename TIter> \
    comms::ErrorStatus write(const TMsg& msg, TIter& iter, std::size_t len) const \
    { AllFields f; return this->mcWrite(f, msg, iter, len); } \
    template <typename TMsg, typename TIter> \
    comms::ErrorStatus writeFieldsCached(AllFields& f, const TMsg& msg, TIter& iter, std::size_t len) const \
    { return this->mcWrite(f, msg, iter, len); } \
    template <typename TIter> comms::ErrorStatus update(TIter& iter, std::size_t len) const \
    { AllFields f; return this->mcUpdate(f, static_cast<const comms::details::NoMsgForUpdate*>(nullptr), iter, len); } \
    template <typename TMsg, typename TIter> comms::ErrorStatus update(const TMsg& msg, TIter& iter, std::size_t len) const \
    { AllFields f; return this->mcUpdate(f, &msg, iter, len); } \
    template <typename TIter> comms::ErrorStatus updateFieldsCached(AllFields& f, TIter& iter, std::size_t len) const \
    { return this->mcUpdate(f, static_cast<const comms::details::NoMsgForUpdate*>(nullptr), iter, len); } \
    template <typename TMsg> std::size_t length(const TMsg& msg) const { return this->mcLength(msg); } \
    static constexpr std::size_t length() { return mcStaticLength(); }
namespace comms { namespace details { struct NoMsgForUpdate {}; } }

#define MC_LAYER_ENTRY(x_) LayerIdx_ ## x_,
#define MC_LAYER_ACC(x_) \
    using Layer_ ## x_ = typename comms::details::LayerAt<Base, (Base::McDepth - 1U) - static_cast<std::size_t>(LayerIdx_ ## x_)>::type; \
    Layer_ ## x_& layer_ ## x_ () { return comms::details::LayerAt<Base, (Base::McDepth - 1U) - static_cast<std::size_t>(LayerIdx_ ## x_)>::get(*this); } \
    const Layer_ ## x_& layer_ ## x_ () const { return comms::details::LayerAt<Base, (Base::McDepth - 1U) - static_cast<std::size_t>(LayerIdx_ ## x_)>::get(*this); }
#define COMMS_FRAME_LAYERS_NAMES(...) \
    enum LayerIdx : unsigned { MC_FOR_EACH(MC_LAYER_ENTRY, __VA_ARGS__) LayerIdx_numOfValues }; \
    static_assert(static_cast<std::size_t>(LayerIdx_numOfValues) == Base::McDepth, "wrong number of layer names"); \
    MC_FOR_EACH(MC_LAYER_ACC, __VA_ARGS__)
#define COMMS_PROTOCOL_LAYERS_NAMES(...) COMMS_FRAME_LAYERS_NAMES(__VA_ARGS__)

namespace comms { namespace details {
template <typename L, std::size_t N> struct LayerAt
{
    using type = typename LayerAt<typename L::McNextType, N - 1U>::type;
    static type& get(L& l) { return LayerAt<typename L::McNextType, N - 1U>::get(l.nextLayer()); }
    static const type& get(const L& l) { return LayerAt<typename L::McNextType, N - 1U>::get(l.nextLayer()); }
};
template <typename L> struct LayerAt<L, 0U>
{
    using type = L;
    static type& get(L& l) { return l; }
    static const type& get(const L& l) { return l; }
};
}}
