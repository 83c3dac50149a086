#pragma once
#include "comms/MessageBase.h"
#include "comms/field/ArrayList.h"
namespace comms {
template <typename TMessage, typename TFieldOpts = option::app::EmptyOption, typename... TExtra>
class GenericMessage : public MessageBase<TMessage,
    option::def::MsgType<GenericMessage<TMessage, TFieldOpts, TExtra...> >,
    option::def::FieldsImpl<std::tuple<field::ArrayList<Field<typename TMessage::Endian>, std::uint8_t, TFieldOpts> > >,
    TExtra...>
{
public:
    GenericMessage() = default;
    explicit GenericMessage(typename TMessage::MsgIdParamType id) : m_id(id) {}
    typename TMessage::MsgIdParamType doGetId() const { return m_id; }
private:
    typename TMessage::MsgIdType m_id = typename TMessage::MsgIdType();
};
}
