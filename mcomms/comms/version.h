#pragma once
#define COMMS_MAJOR_VERSION 5U
#define COMMS_MINOR_VERSION 5U
#define COMMS_PATCH_VERSION 1U
#define COMMS_MAKE_VERSION(major_, minor_, patch_) \
    ((static_cast<unsigned>(major_) << 24) | (static_cast<unsigned>(minor_) << 8) | (static_cast<unsigned>(patch_)))
#define COMMS_VERSION COMMS_MAKE_VERSION(COMMS_MAJOR_VERSION, COMMS_MINOR_VERSION, COMMS_PATCH_VERSION)
namespace comms
{
inline constexpr unsigned version() { return COMMS_VERSION; }
inline constexpr unsigned versionMajor() { return COMMS_MAJOR_VERSION; }
inline constexpr unsigned versionMinor() { return COMMS_MINOR_VERSION; }
inline constexpr unsigned versionPatch() { return COMMS_PATCH_VERSION; }
} // namespace comms
