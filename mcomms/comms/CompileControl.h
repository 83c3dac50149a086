#pragma once
#define COMMS_MSVC_WARNING_PUSH
#define COMMS_MSVC_WARNING_DISABLE(w_)
#define COMMS_MSVC_WARNING_SUPPRESS(w_)
#define COMMS_MSVC_WARNING_POP
#define COMMS_GNU_WARNING_PUSH
#define COMMS_GNU_WARNING_DISABLE(w_)
#define COMMS_GNU_WARNING_POP
#define COMMS_IS_CPP14 (__cplusplus >= 201402L)
#define COMMS_IS_CPP17 (__cplusplus >= 201703L)
#define COMMS_IS_CPP20 (__cplusplus >= 202002L)
