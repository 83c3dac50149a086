#pragma once
#include <cstdio>
#include <cstdlib>
namespace comms { namespace details {
inline void mcAssertFail(const char* expr, const char* file, int line)
{
    std::fprintf(stderr, "MCOMMS-ASSERT %s %s:%d\n", expr, file, line);
    std::abort();
}
}}
#define COMMS_ASSERT(expr) ((expr) ? static_cast<void>(0) : comms::details::mcAssertFail(#expr, __FILE__, __LINE__))
