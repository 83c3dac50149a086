#pragma once
#include "comms/fields.h"
#include "comms/cast.h"
#include "comms/CompileControl.h"
#include "comms/dispatch.h"
#include "comms/GenericMessage.h"
#include "comms/iterator.h"
#include "comms/Message.h"
#include "comms/MessageBase.h"
#include "comms/MsgFactory.h"
#include "comms/process.h"
#include "comms/units.h"
#include "comms/version.h"
#include "comms/frame/ChecksumLayer.h"
#include "comms/frame/ChecksumPrefixLayer.h"
#include "comms/frame/MsgDataLayer.h"
#include "comms/frame/MsgIdLayer.h"
#include "comms/frame/MsgSizeLayer.h"
#include "comms/frame/SyncPrefixLayer.h"
#include "comms/frame/SyncSuffixLayer.h"
#include "comms/frame/TransportValueLayer.h"
#include "comms/util/ArrayView.h"
#include "comms/util/StringView.h"
#include "comms/util/StaticVector.h"
#include "comms/util/Tuple.h"
#include "comms/util/assign.h"
