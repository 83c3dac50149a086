// C05: prints what the generated lists, factories and dispatchers contain and do
#pragma once
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <string>
#include <tuple>
#include <type_traits>
#include <vector>
#include "comms/comms.h"

namespace hl
{
inline void line(const std::string& l, const std::string& v) { std::cout << l << ": " << v << "\n"; }

template <typename T> struct List;
template <typename... M> struct List<std::tuple<M...> >
{
    static std::string str() { std::string s; int d[] = {0, (s += std::string(M::doName()) + "=" + std::to_string(static_cast<std::uintmax_t>(M::doGetId())) + " ", 0)...}; (void)d; return s; }
};
template <typename T> void list(const char* l) { line(l, List<T>::str()); }

template <typename I> struct Handler
{
    std::string handle(I&) { return "?"; }
    template <typename M> std::string handle(M&) { return M::doName(); }
};
struct VoidHandler
{
    std::string got;
    template <typename M> void handle(M&) { got = "m"; }
};

template <typename TId> struct Ids { const std::vector<std::uintmax_t>& v; };

// one object of the interface type is enough: dispatching only casts the reference
template <typename I, typename M> struct Obj { M m; I& ref() { return m; } };

template <typename F, typename TIds> void factory(const char* l, const TIds& ids)
{
    F f;
    std::string s;
    for (auto id : ids) {
        s += std::to_string(id) + "#" + std::to_string(f.msgCount(static_cast<typename F::MsgIdType>(id)));
        for (unsigned idx = 0; idx < 4; ++idx) {
            auto r = comms::MsgFactoryCreateFailureReason::NumOfValues;
            auto m = f.createMsg(static_cast<typename F::MsgIdType>(id), idx, &r);
            auto m2 = f.createMsg(static_cast<typename F::MsgIdType>(id), idx);
            s += std::string(",") + (m ? m->name() : "-") + (m ? "/" + std::to_string(static_cast<std::uintmax_t>(m->getId())) : "") + (bool(m) == bool(m2) ? "" : "!") + "r" + std::to_string((int)r);
        }
        auto m = f.createMsg(static_cast<typename F::MsgIdType>(id));
        s += std::string(",") + (m ? m->name() : "-") + " ";
    }
    line(std::string(l) + ".create", s);
    line(std::string(l) + ".unique", std::to_string(f.hasUniqueIds()) + (f.canAllocate() ? "" : " cannot allocate") + (f.createGenericMsg(static_cast<typename F::MsgIdType>(1)) ? " generic" : ""));
}
// plain: (id, msg, handler), idx: (id, idx, msg, handler)
template <typename I, typename O, typename TIds, typename P, typename X> void dispatch(const char* l, O& obj, const TIds& ids, const std::vector<unsigned>& cnt, P plain, X idx)
{
    std::string s;
    Handler<I> h;
    std::size_t n = 0;
    for (auto id : ids) {
        s += std::to_string(id) + "=" + plain(id, obj, h);
        auto c = cnt.at(n++);
        for (std::size_t i = 0; i < (c == 1 ? 1U : 4U); ++i) { s += "," + idx(id, i, obj, h); }
        s += " ";
    }
    line(l, s);
}
// every identifier that fits 16 bits, read through the frame
template <typename F, typename I, typename TIds> void frame(const char* l, const TIds& ids)
{
    F f;
    std::string s;
    for (auto id : ids) {
        if (0xffff < id) { continue; }
        const std::uint8_t b[2] = {static_cast<std::uint8_t>(id >> 8), static_cast<std::uint8_t>(id)};
        const std::uint8_t* it = b;
        typename F::MsgPtr m;
        auto es = f.read(m, it, 2);
        s += std::to_string(id) + "=" + (es == comms::ErrorStatus::Success ? (m ? m->name() : "null") : "r" + std::to_string((int)es)) + " ";
    }
    line(l, s);
}
}
