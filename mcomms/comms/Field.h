#pragma once
#include "comms/options.h"
#include "comms/details/base.h"
namespace comms
{
namespace details
{
// the first endian option in the list wins
template <typename TList> struct EndianOf { using type = option::def::BigEndian; };
template <template <typename...> class L, typename T, typename... R> struct EndianOf<L<T, R...> > { using type = typename EndianOf<L<R...> >::type; };
template <template <typename...> class L, typename... R> struct EndianOf<L<option::def::LittleEndian, R...> > { using type = option::def::LittleEndian; };
template <template <typename...> class L, typename... R> struct EndianOf<L<option::def::BigEndian, R...> > { using type = option::def::BigEndian; };
} // namespace details
template <typename... TOptions>
class Field
{
    using McOpts = details::Flatten<TOptions...>;
public:
    using Endian = typename details::EndianOf<McOpts>::type;
    using VersionType = details::VersionType;
};
} // namespace comms
