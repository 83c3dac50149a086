#pragma once
#include <tuple>
#include "comms/details/base.h"
namespace comms { namespace util {
template <std::size_t N> struct SizeToType { static constexpr std::size_t Value = N; };
namespace mc {
template <std::size_t I, std::size_t N> struct Te
{
    template <typename T, typename F> static void each(T&& t, F&& f) { if constexpr (I < N) { f(std::get<I>(std::forward<T>(t))); Te<I + 1U, N>::each(std::forward<T>(t), std::forward<F>(f)); } }
    template <typename T, typename F> static void eachType(F&& f) { if constexpr (I < N) { f.template operator()<typename std::tuple_element<I, T>::type>(); Te<I + 1U, N>::template eachType<T>(std::forward<F>(f)); } }
    template <typename T, typename F> static void eachIdx(T&& t, F&& f) { if constexpr (I < N) { f.template operator()<I>(std::get<I>(std::forward<T>(t))); Te<I + 1U, N>::eachIdx(std::forward<T>(t), std::forward<F>(f)); } }
};
template <std::size_t N> struct Te<N, N>
{
    template <typename T, typename F> static void each(T&&, F&&) {}
    template <typename T, typename F> static void eachType(F&&) {}
    template <typename T, typename F> static void eachIdx(T&&, F&&) {}
};
}
template <typename T, typename F> void tupleForEach(T&& t, F&& f)
{ mc::Te<0U, std::tuple_size<typename std::decay<T>::type>::value>::each(std::forward<T>(t), std::forward<F>(f)); }
template <typename T, typename F> void tupleForEachType(F&& f)
{ mc::Te<0U, std::tuple_size<typename std::decay<T>::type>::value>::template eachType<typename std::decay<T>::type>(std::forward<F>(f)); }
template <typename T, typename F> void tupleForEachWithTemplateParamIdx(T&& t, F&& f)
{ mc::Te<0U, std::tuple_size<typename std::decay<T>::type>::value>::eachIdx(std::forward<T>(t), std::forward<F>(f)); }
}}
