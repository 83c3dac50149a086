#pragma once
#include <utility>
#include "comms/details/base.h"
#include "comms/util/assign.h"
namespace comms {
namespace details {
template <typename T> struct CastAssign
{
    T& ref;
    template <typename U> CastAssign& operator=(U&& u) { mcDo(std::forward<U>(u), 0); return *this; }
    template <typename U> auto mcDo(U&& u, int) -> decltype(static_cast<void>(static_cast<T>(u))) { ref = static_cast<T>(u); }
    template <typename U> auto mcDo(U&& u, long) -> decltype(static_cast<void>(u.begin())) { ref.assign(u.begin(), u.end()); }
};
}
template <typename T> details::CastAssign<T> cast_assign(T& v) { return details::CastAssign<T>{v}; }
template <typename TTo, typename TFrom> TTo field_cast(const TFrom& f) { TTo r; details::assignField(r, f); return r; }
}
