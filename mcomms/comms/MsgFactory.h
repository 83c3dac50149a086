#pragma once
#include <memory>
#include "comms/MessageBase.h"
#include "comms/MsgFactoryCreateFailureReason.h"
namespace comms {
namespace details {
struct NoGeneric { using type = void; };
template <typename TIf, typename TTuple, std::size_t I = 0U, bool TDone = (std::tuple_size<TTuple>::value <= I)> struct Factory
{
    using M = typename std::tuple_element<I, TTuple>::type;
    template <typename TId> static TIf* create(TId id, unsigned& skip)
    {
        if (static_cast<std::intmax_t>(M::doGetId()) == static_cast<std::intmax_t>(id)) {
            if (skip == 0U) { return new M; }
            --skip;
        }
        return Factory<TIf, TTuple, I + 1U>::create(id, skip);
    }
    template <typename TId> static std::size_t count(TId id)
    { return ((static_cast<std::intmax_t>(M::doGetId()) == static_cast<std::intmax_t>(id)) ? 1U : 0U) + Factory<TIf, TTuple, I + 1U>::count(id); }
};
template <typename TIf, typename TTuple, std::size_t I> struct Factory<TIf, TTuple, I, true>
{
    template <typename TId> static TIf* create(TId, unsigned&) { return nullptr; }
    template <typename TId> static std::size_t count(TId) { return 0U; }
};
}
template <typename TMsg, typename TAllMsgs, typename... TOptions>
class MsgFactory
{
    using McOpts = details::Flatten<TOptions...>;
public:
    using Message = TMsg;
    using AllMessages = TAllMsgs;
    struct McDeleter
    {
        bool* flag;
        explicit McDeleter(bool* f = nullptr) : flag(f) {}
        void operator()(TMsg* m) const { if (flag != nullptr) { *flag = false; } delete m; }
    };
    static constexpr bool McInPlace = details::hasOpt<option::app::InPlaceAllocation, McOpts>();
    using MsgPtr = typename std::conditional<McInPlace, std::unique_ptr<TMsg, McDeleter>, std::unique_ptr<TMsg> >::type;
    using MsgIdType = typename TMsg::MsgIdType;
    using MsgIdParamType = typename TMsg::MsgIdParamType;
    using CreateFailureReason = MsgFactoryCreateFailureReason;
    using GenericMessage = typename details::Find<option::app::mc::SupportGenericMessageTag, details::NoGeneric, McOpts>::type;
    MsgPtr createMsg(MsgIdParamType id, unsigned idx = 0U, CreateFailureReason* reason = nullptr) const
    {
        unsigned skip = idx;
        if constexpr (McInPlace) {
            if (m_busy) { if (reason != nullptr) { *reason = CreateFailureReason::AllocFailure; } return MsgPtr(); }
            TMsg* m = details::Factory<TMsg, TAllMsgs>::create(id, skip);
            if (reason != nullptr) { *reason = (m != nullptr) ? CreateFailureReason::None : CreateFailureReason::InvalidId; }
            if (m == nullptr) { return MsgPtr(); }
            m_busy = true;
            return MsgPtr(m, McDeleter{&m_busy});
        }
        else {
        MsgPtr r(details::Factory<TMsg, TAllMsgs>::create(id, skip));
        if (reason != nullptr) { *reason = r ? CreateFailureReason::None : CreateFailureReason::InvalidId; }
        return r;
        }
    }
    MsgPtr createGenericMsg(MsgIdParamType id, unsigned = 0U) const
    {
        if constexpr (std::is_void<GenericMessage>::value) { static_cast<void>(id); return MsgPtr(); }
        else if constexpr (McInPlace) {
            if (m_busy) { return MsgPtr(); }
            m_busy = true;
            return MsgPtr(new GenericMessage(id), McDeleter{&m_busy});
        }
        else { return MsgPtr(new GenericMessage(id)); }
    }
    std::size_t msgCount(MsgIdParamType id) const { return details::Factory<TMsg, TAllMsgs>::count(id); }
    bool canAllocate() const { return !m_busy; }
private:
    mutable bool m_busy = false;
};
}
