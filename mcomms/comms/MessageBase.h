#pragma once
#include "comms/Message.h"
#include "comms/details/foreach.h"
namespace comms {
namespace details {
struct McMsgTag {};
struct NoId { static constexpr std::intmax_t value = 0; };

template <typename TMsg, typename H> auto mcHandle(H& h, TMsg& m, int) -> decltype(h.handle(m)) { return h.handle(m); }

// reading of a message: the (possibly overridden) doRead() followed by the FailOnInvalid validity check on the most derived type
template <typename TMsg, typename TIter> ErrorStatus mcMsgRead(TMsg& msg, TIter& iter, std::size_t len)
{
    auto es = msg.doRead(iter, len);
    using Opts = typename TMsg::McOpts;
    if constexpr (hasTag<option::def::mc::FailOnInvalidTag, Opts>())
    { if ((es == ErrorStatus::Success) && (!msg.doValid())) { return Find<option::def::mc::FailOnInvalidTag, NoId, Opts>::value; } }
    return es;
}
template <typename TActual, typename TBase, bool> struct IdImpl : TBase {};
template <typename TActual, typename TBase> struct IdImpl<TActual, TBase, true> : TBase
{ typename TBase::MsgIdType mcGetIdImpl() const override { return static_cast<typename TBase::MsgIdType>(TActual::doGetId()); } };
template <typename TActual, typename TBase, bool, bool TNo> struct ReadImpl : TBase {};
template <typename TActual, typename TBase> struct ReadImpl<TActual, TBase, true, true> : TBase
{ ErrorStatus mcReadImpl(typename TBase::ReadIterator&, std::size_t) override { return ErrorStatus::NotSupported; } };
template <typename TActual, typename TBase> struct ReadImpl<TActual, TBase, true, false> : TBase
{ ErrorStatus mcReadImpl(typename TBase::ReadIterator& iter, std::size_t len) override { return mcMsgRead(*static_cast<TActual*>(this), iter, len); } };
template <typename TActual, typename TBase, bool, bool TNo> struct WriteImpl : TBase {};
template <typename TActual, typename TBase> struct WriteImpl<TActual, TBase, true, true> : TBase
{ ErrorStatus mcWriteImpl(typename TBase::WriteIterator&, std::size_t) const override { return ErrorStatus::NotSupported; } };
template <typename TActual, typename TBase> struct WriteImpl<TActual, TBase, true, false> : TBase
{ ErrorStatus mcWriteImpl(typename TBase::WriteIterator& iter, std::size_t len) const override { return static_cast<const TActual*>(this)->doWrite(iter, len); } };
template <typename TActual, typename TBase, bool> struct LenImpl : TBase {};
template <typename TActual, typename TBase> struct LenImpl<TActual, TBase, true> : TBase
{ std::size_t mcLengthImpl() const override { return static_cast<const TActual*>(this)->doLength(); } };
template <typename TActual, typename TBase, bool> struct ValidImpl : TBase {};
template <typename TActual, typename TBase> struct ValidImpl<TActual, TBase, true> : TBase
{ bool mcValidImpl() const override { return static_cast<const TActual*>(this)->doValid(); } };
template <typename TActual, typename TBase, bool, bool TCall> struct RefreshImpl : TBase {};
template <typename TActual, typename TBase> struct RefreshImpl<TActual, TBase, true, true> : TBase
{ bool mcRefreshImpl() override { return static_cast<TActual*>(this)->doRefresh(); } };
template <typename TActual, typename TBase> struct RefreshImpl<TActual, TBase, true, false> : TBase
{ bool mcRefreshImpl() override { return false; } };
template <typename TActual, typename TBase, bool> struct NameImpl : TBase {};
template <typename TActual, typename TBase> struct NameImpl<TActual, TBase, true> : TBase
{ const char* mcNameImpl() const override { return TActual::doName(); } };
template <typename TActual, typename TBase, bool> struct DispatchImpl : TBase {};
template <typename TActual, typename TBase> struct DispatchImpl<TActual, TBase, true> : TBase
{ typename TBase::DispatchRetType mcDispatchImpl(typename TBase::Handler& h) override { return static_cast<typename TBase::DispatchRetType>(h.handle(static_cast<TActual&>(*this))); } };

template <typename TBase, typename TActual, typename O, typename F>
using MsgImpl =
    DispatchImpl<TActual,
    NameImpl<TActual,
    RefreshImpl<TActual,
    ValidImpl<TActual,
    LenImpl<TActual,
    WriteImpl<TActual,
    ReadImpl<TActual,
    IdImpl<TActual, TBase, TBase::hasGetId()>,
        TBase::hasRead(), hasOpt<option::app::NoReadImpl, O>()>,
        TBase::hasWrite(), hasOpt<option::app::NoWriteImpl, O>()>,
        TBase::hasLength()>,
        TBase::hasValid()>,
        TBase::hasRefresh(), (!hasOpt<option::app::NoRefreshImpl, O>()) && (hasOpt<option::def::HasCustomRefresh, O>() || TupleInfo<F>::anyRefresh() || TupleInfo<F>::anyVersionDependent())>,
        TBase::hasName() && hasOpt<option::def::HasName, O>()>,
        TBase::hasDispatch() && !hasOpt<option::app::NoDispatchImpl, O>()>;
} // namespace details

template <typename TMessage, typename... TOptions>
class MessageBase : public details::MsgImpl<TMessage,
    typename details::Find<option::def::mc::MsgTypeTag, details::NoType, details::Flatten<TOptions...> >::type,
    details::Flatten<TOptions...>,
    typename details::Find<option::def::mc::FieldsImplTag, details::NoTupleOpt, details::Flatten<TOptions...> >::type>
{
public:
    using McOpts = details::Flatten<TOptions...>;
protected:
    template <std::size_t A, std::size_t B> using McF = details::Fields<A, B>;
public:
    using InterfaceType = TMessage;
    using ImplOptions = std::tuple<TOptions...>;
    using MsgType = typename details::Find<option::def::mc::MsgTypeTag, details::NoType, McOpts>::type;
    using AllFields = typename details::Find<option::def::mc::FieldsImplTag, details::NoTupleOpt, McOpts>::type;
    using VersionType = details::VersionType;
    using McMsgImplTag = void;
protected:
    static constexpr std::size_t McSize = std::tuple_size<AllFields>::value;
public:
    MessageBase() { if constexpr (TMessage::hasVersionInTransportFields() && areFieldsVersionDependent()) { doFieldsVersionUpdate(); } }
    AllFields& fields() { return m_fields; }
    const AllFields& fields() const { return m_fields; }

    static constexpr bool hasStaticMsgId() { return details::hasTag<option::def::mc::StaticNumIdImplTag, McOpts>(); }
    static constexpr bool hasFields() { return details::hasTag<option::def::mc::FieldsImplTag, McOpts>(); }
    static constexpr bool hasCustomName() { return details::hasOpt<option::def::HasName, McOpts>(); }
    static constexpr bool areFieldsVersionDependent() { return details::TupleInfo<AllFields>::anyVersionDependent(); }

    static constexpr typename TMessage::MsgIdParamType doGetId()
    { return static_cast<typename TMessage::MsgIdParamType>(details::Find<option::def::mc::StaticNumIdImplTag, details::NoId, McOpts>::value); }

    static constexpr std::size_t doMinLength() { return details::LenSum<AllFields, 0U, McSize>::minLen(); }
    static constexpr std::size_t doMaxLength() { return details::LenSum<AllFields, 0U, McSize>::maxLen(); }
    template <std::size_t TFrom> static constexpr std::size_t doMinLengthFrom() { return details::LenSum<AllFields, TFrom, McSize>::minLen(); }
    template <std::size_t TUntil> static constexpr std::size_t doMinLengthUntil() { return details::LenSum<AllFields, 0U, TUntil>::minLen(); }
    std::size_t doLength() const { return McF<0U, McSize>::length(m_fields); }
    template <std::size_t TFrom> std::size_t doLengthFrom() const { return McF<TFrom, McSize>::length(m_fields); }
    template <std::size_t TUntil> std::size_t doLengthUntil() const { return McF<0U, TUntil>::length(m_fields); }
    bool doValid() const { return McF<0U, McSize>::valid(m_fields); }
    bool doRefresh()
    {
        bool r = doFieldsVersionUpdate();
        bool f = McF<0U, McSize>::refresh(m_fields);
        return r || f;
    }
    bool doFieldsVersionUpdate()
    {
        if constexpr (TMessage::hasVersionInTransportFields() && areFieldsVersionDependent()) { return McF<0U, McSize>::setVersion(m_fields, this->mcVersion()); }
        else { return false; }
    }
    template <typename TIter> ErrorStatus doRead(TIter& iter, std::size_t len) { doFieldsVersionUpdate(); return McF<0U, McSize>::read(m_fields, iter, len); }
    template <std::size_t TFrom, typename TIter> ErrorStatus doReadFrom(TIter& iter, std::size_t len) { return McF<TFrom, McSize>::read(m_fields, iter, len); }
    template <std::size_t TFrom, typename TIter> ErrorStatus doReadFromAndUpdateLen(TIter& iter, std::size_t& len) { return McF<TFrom, McSize>::read(m_fields, iter, len); }
    template <std::size_t TUntil, typename TIter> ErrorStatus doReadUntil(TIter& iter, std::size_t len) { doFieldsVersionUpdate(); return McF<0U, TUntil>::read(m_fields, iter, len); }
    template <std::size_t TUntil, typename TIter> ErrorStatus doReadUntilAndUpdateLen(TIter& iter, std::size_t& len) { doFieldsVersionUpdate(); return McF<0U, TUntil>::read(m_fields, iter, len); }
    template <std::size_t TFrom, std::size_t TUntil, typename TIter> ErrorStatus doReadFromUntil(TIter& iter, std::size_t len) { return McF<TFrom, TUntil>::read(m_fields, iter, len); }
    template <std::size_t TFrom, std::size_t TUntil, typename TIter> ErrorStatus doReadFromUntilAndUpdateLen(TIter& iter, std::size_t& len) { return McF<TFrom, TUntil>::read(m_fields, iter, len); }
    template <typename TIter> ErrorStatus doWrite(TIter& iter, std::size_t len) const { return McF<0U, McSize>::write(m_fields, iter, len); }
    template <std::size_t TFrom, typename TIter> ErrorStatus doWriteFrom(TIter& iter, std::size_t len) const { return McF<TFrom, McSize>::write(m_fields, iter, len); }
    template <std::size_t TUntil, typename TIter> ErrorStatus doWriteUntil(TIter& iter, std::size_t len) const { return McF<0U, TUntil>::write(m_fields, iter, len); }
    template <std::size_t TFrom, std::size_t TUntil, typename TIter> ErrorStatus doWriteFromUntil(TIter& iter, std::size_t len) const { return McF<TFrom, TUntil>::write(m_fields, iter, len); }
private:
    AllFields m_fields;
};
namespace details {
template <typename B, typename... O> std::true_type isMsgBaseImpl(const MessageBase<B, O...>*);
std::false_type isMsgBaseImpl(...);
}
template <typename T> constexpr bool isMessageBase() { return decltype(details::isMsgBaseImpl(static_cast<T*>(nullptr)))::value; }
template <typename A, typename B> auto operator==(const A& a, const B& b) -> typename std::enable_if<isMessageBase<A>() && isMessageBase<B>(), decltype(a.fields() == b.fields())>::type
{ return a.fields() == b.fields(); }
template <typename A, typename B> auto operator!=(const A& a, const B& b) -> typename std::enable_if<isMessageBase<A>() && isMessageBase<B>(), decltype(a.fields() == b.fields())>::type
{ return !(a.fields() == b.fields()); }
template <typename T> constexpr bool isMessage() { return true; }
} // namespace comms
#define MC_MSG_ENTRY(x_) FieldIdx_ ## x_,
#define MC_MSG_ACC(x_) \
    using Field_ ## x_ = typename std::tuple_element<FieldIdx_ ## x_, typename Base::AllFields>::type; \
    Field_ ## x_& field_ ## x_ () { return std::get<FieldIdx_ ## x_>(this->fields()); } \
    const Field_ ## x_& field_ ## x_ () const { return std::get<FieldIdx_ ## x_>(this->fields()); }
#define COMMS_MSG_FIELDS_NAMES(...) \
    enum FieldIdx : unsigned { MC_FOR_EACH(MC_MSG_ENTRY, __VA_ARGS__) FieldIdx_numOfValues }; \
    static_assert(static_cast<std::size_t>(FieldIdx_numOfValues) == std::tuple_size<typename Base::AllFields>::value, "wrong number of field names"); \
    MC_FOR_EACH(MC_MSG_ACC, __VA_ARGS__)
#define COMMS_MSG_FIELDS_NAMES_NOTEMPLATE(...) COMMS_MSG_FIELDS_NAMES(__VA_ARGS__)
