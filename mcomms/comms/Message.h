#pragma once
#include <memory>
#include "comms/Assert.h"
#include "comms/details/base.h"
#include "comms/details/foreach.h"
#include "comms/details/alias.h"
#include "comms/details/num.h"
#include "comms/ErrorStatus.h"
#include "comms/Field.h"
#include "comms/options.h"
namespace comms {
namespace details {
struct NoMsgId { using type = int; };
struct NoType { using type = void; };
struct NoTupleOpt { using type = std::tuple<>; };
struct NoHandler { using type = void; };
struct NoRet { };

template <typename THandler, bool THas = true> struct HandlerIf { using Handler = THandler; };
template <typename THandler> struct HandlerIf<THandler, false> { };
template <typename T, bool THas = true> struct ReadIf { using ReadIterator = T; };
template <typename T> struct ReadIf<T, false> { };
template <typename T, bool THas = true> struct WriteIf { using WriteIterator = T; };
template <typename T> struct WriteIf<T, false> { };

template <typename H, typename = void> struct HandlerRet { using type = void; };
template <typename...> struct MakeVoid { using type = void; };
template <typename H> struct HandlerRet<H, typename MakeVoid<typename H::RetType>::type> { using type = typename H::RetType; };

template <typename TMsg, typename TList, bool THas> struct DispatchPart { };
template <typename TMsg, typename TList> struct DispatchPart<TMsg, TList, true>
{
    using Handler = typename Find<option::app::mc::HandlerTag, NoHandler, TList>::type;
    using DispatchRetType = typename HandlerRet<Handler>::type;
    virtual DispatchRetType mcDispatchImpl(Handler&) { return DispatchRetType(); }
    DispatchRetType dispatch(Handler& h) { return mcDispatchImpl(h); }
};
template <typename TId, bool THas> struct IdPart { virtual TId mcGetIdImpl() const = 0; TId getId() const { return mcGetIdImpl(); } };
template <typename TId> struct IdPart<TId, false> { };
template <bool THas, typename TList> struct ReadPart
{
    using ReadIterator = typename Find<option::app::mc::ReadIteratorTag, NoType, TList>::type;
    virtual ErrorStatus mcReadImpl(ReadIterator& iter, std::size_t len) = 0;
    ErrorStatus read(ReadIterator& iter, std::size_t len) { return mcReadImpl(iter, len); }
};
template <typename TList> struct ReadPart<false, TList> { };
template <bool THas, typename TList> struct WritePart
{
    using WriteIterator = typename Find<option::app::mc::WriteIteratorTag, NoType, TList>::type;
    virtual ErrorStatus mcWriteImpl(WriteIterator& iter, std::size_t len) const = 0;
    ErrorStatus write(WriteIterator& iter, std::size_t len) const { return mcWriteImpl(iter, len); }
};
template <typename TList> struct WritePart<false, TList> { };
template <bool THas> struct LenPart { virtual std::size_t mcLengthImpl() const = 0; std::size_t length() const { return mcLengthImpl(); } };
template <> struct LenPart<false> { };
template <bool THas> struct ValidPart { virtual bool mcValidImpl() const = 0; bool valid() const { return mcValidImpl(); } };
template <> struct ValidPart<false> { };
template <bool THas> struct RefreshPart { virtual bool mcRefreshImpl() = 0; bool refresh() { return mcRefreshImpl(); } };
template <> struct RefreshPart<false> { };
template <bool THas> struct NamePart { virtual const char* mcNameImpl() const = 0; const char* name() const { return mcNameImpl(); } };
template <> struct NamePart<false> { };
struct NoVerField { static constexpr std::size_t value = 0U; };
template <typename TTuple, std::size_t TIdx, bool THas> struct TransportPart
{
    using TransportFields = TTuple;
    using AllTransportFields = TTuple;
    TransportFields& transportFields() { return m_tf; }
    const TransportFields& transportFields() const { return m_tf; }
    TransportFields m_tf;
};
template <typename TTuple, std::size_t TIdx> struct TransportPart<TTuple, TIdx, false> { };
} // namespace details

template <typename... TOptions>
class Message :
    public details::IdPart<typename details::Find<option::def::mc::MsgIdTypeTag, details::NoMsgId, details::Flatten<TOptions...> >::type,
        details::hasOpt<option::app::IdInfoInterface, details::Flatten<TOptions...> >()>,
    public details::ReadPart<details::hasTag<option::app::mc::ReadIteratorTag, details::Flatten<TOptions...> >(), details::Flatten<TOptions...> >,
    public details::WritePart<details::hasTag<option::app::mc::WriteIteratorTag, details::Flatten<TOptions...> >(), details::Flatten<TOptions...> >,
    public details::LenPart<details::hasOpt<option::app::LengthInfoInterface, details::Flatten<TOptions...> >()>,
    public details::ValidPart<details::hasOpt<option::app::ValidCheckInterface, details::Flatten<TOptions...> >()>,
    public details::RefreshPart<details::hasOpt<option::app::RefreshInterface, details::Flatten<TOptions...> >()>,
    public details::NamePart<details::hasOpt<option::app::NameInterface, details::Flatten<TOptions...> >()>,
    public details::TransportPart<typename details::Find<option::def::mc::ExtraTransportFieldsTag, details::NoTupleOpt, details::Flatten<TOptions...> >::type,
        0U, details::hasTag<option::def::mc::ExtraTransportFieldsTag, details::Flatten<TOptions...> >()>,
    public details::DispatchPart<Message<TOptions...>, details::Flatten<TOptions...>, details::hasTag<option::app::mc::HandlerTag, details::Flatten<TOptions...> >()>
{
public:
    using McIfOpts = details::Flatten<TOptions...>;
    using InterfaceOptions = std::tuple<TOptions...>;
    using Endian = typename std::conditional<details::hasOpt<option::def::LittleEndian, McIfOpts>(), option::def::LittleEndian, option::def::BigEndian>::type;
    using Field = comms::Field<Endian>;
    using MsgIdType = typename details::Find<option::def::mc::MsgIdTypeTag, details::NoMsgId, McIfOpts>::type;
    using MsgIdParamType = MsgIdType;
    using VersionType = details::VersionType;

    static constexpr bool hasGetId() { return details::hasOpt<option::app::IdInfoInterface, McIfOpts>(); }
    static constexpr bool hasRead() { return details::hasTag<option::app::mc::ReadIteratorTag, McIfOpts>(); }
    static constexpr bool hasWrite() { return details::hasTag<option::app::mc::WriteIteratorTag, McIfOpts>(); }
    static constexpr bool hasLength() { return details::hasOpt<option::app::LengthInfoInterface, McIfOpts>(); }
    static constexpr bool hasValid() { return details::hasOpt<option::app::ValidCheckInterface, McIfOpts>(); }
    static constexpr bool hasRefresh() { return details::hasOpt<option::app::RefreshInterface, McIfOpts>(); }
    static constexpr bool hasName() { return details::hasOpt<option::app::NameInterface, McIfOpts>(); }
    static constexpr bool hasDispatch() { return details::hasTag<option::app::mc::HandlerTag, McIfOpts>(); }
    static constexpr bool hasTransportFields() { return details::hasTag<option::def::mc::ExtraTransportFieldsTag, McIfOpts>(); }
    static constexpr bool hasVersionInTransportFields() { return details::hasTag<option::def::mc::VersionInExtraTransportFieldsTag, McIfOpts>(); }

    Message() = default;
    Message(const Message&) = default;
    Message(Message&&) = default;
    virtual ~Message() = default;
    Message& operator=(const Message&) = default;
    Message& operator=(Message&&) = default;

    template <typename M = Message> auto version() -> decltype(std::get<details::Find<option::def::mc::VersionInExtraTransportFieldsTag, details::NoVerField, typename M::McIfOpts>::value>(std::declval<M&>().transportFields()).value())
    { return std::get<details::Find<option::def::mc::VersionInExtraTransportFieldsTag, details::NoVerField, typename M::McIfOpts>::value>(static_cast<M*>(this)->transportFields()).value(); }
    template <typename M = Message> auto version() const -> decltype(std::get<details::Find<option::def::mc::VersionInExtraTransportFieldsTag, details::NoVerField, typename M::McIfOpts>::value>(std::declval<const M&>().transportFields()).value())
    { return std::get<details::Find<option::def::mc::VersionInExtraTransportFieldsTag, details::NoVerField, typename M::McIfOpts>::value>(static_cast<const M*>(this)->transportFields()).value(); }

    VersionType mcVersion() const
    {
        if constexpr (hasVersionInTransportFields()) {
            return static_cast<VersionType>(std::get<details::Find<option::def::mc::VersionInExtraTransportFieldsTag, details::NoVerField, McIfOpts>::value>(this->transportFields()).getValue());
        }
        else { return 0U; }
    }
    template <typename F> using BuildField = F;
};
} // namespace comms
#define MC_TF_ENTRY(x_) TransportFieldIdx_ ## x_,
#define MC_TF_ACC(x_) \
    using TransportField_ ## x_ = typename std::tuple_element<TransportFieldIdx_ ## x_, typename Base::AllTransportFields>::type; \
    TransportField_ ## x_& transportField_ ## x_ () { return std::get<TransportFieldIdx_ ## x_>(this->transportFields()); } \
    const TransportField_ ## x_& transportField_ ## x_ () const { return std::get<TransportFieldIdx_ ## x_>(this->transportFields()); }
#define COMMS_MSG_TRANSPORT_FIELDS_NAMES(...) \
    enum TransportFieldIdx : unsigned { MC_FOR_EACH(MC_TF_ENTRY, __VA_ARGS__) TransportFieldIdx_numOfValues }; \
    static_assert(static_cast<std::size_t>(TransportFieldIdx_numOfValues) == std::tuple_size<typename Base::AllTransportFields>::value, "wrong number of names"); \
    MC_FOR_EACH(MC_TF_ACC, __VA_ARGS__)
