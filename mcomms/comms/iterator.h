#pragma once
#include <iterator>
#include "comms/Message.h"
namespace comms {
template <typename TMsg, typename TIter> typename TMsg::ReadIterator readIteratorFor(TIter iter) { return typename TMsg::ReadIterator(iter); }
template <typename TMsg, typename TIter> typename TMsg::ReadIterator readIteratorFor(const TMsg&, TIter iter) { return typename TMsg::ReadIterator(iter); }
template <typename TMsg, typename TIter> typename TMsg::WriteIterator writeIteratorFor(TIter iter) { return typename TMsg::WriteIterator(iter); }
template <typename TMsg, typename TIter> typename TMsg::WriteIterator writeIteratorFor(const TMsg&, TIter iter) { return typename TMsg::WriteIterator(iter); }
}
