// Drives the generated frames of a schema: every line names a frame and the operations performed on a fresh frame object.
#pragma once
#include "wire.h"

namespace fw {
using hw::dump; using hw::hex; using hw::unhex;

struct FObj { virtual ~FObj() = default; virtual std::string run(std::istream& in) = 0; };

template <std::size_t I, std::size_t N, typename T> std::string layers(const T& t)
{ if constexpr (I < N) { return (I ? "," : "") + dump(std::get<I>(t)) + layers<I + 1, N>(t); } else { static_cast<void>(t); return std::string(); } }

template <typename All, std::size_t I, typename Fn> bool withMsg(std::size_t n, Fn&& fn)
{
    if constexpr (I < std::tuple_size<All>::value) {
        if (n == I) { fn(static_cast<typename std::tuple_element<I, All>::type*>(nullptr)); return true; }
        return withMsg<All, I + 1>(n, fn);
    }
    else { static_cast<void>(n); static_cast<void>(fn); return false; }
}
template <typename All, typename If, std::size_t I = 0> std::string which(const If& m)
{
    if constexpr (I < std::tuple_size<All>::value) {
        using M = typename std::tuple_element<I, All>::type;
        if (auto* p = dynamic_cast<const M*>(&m)) { std::string s = hw::nosp(M::doName()) + "{"; hw::TupDump d{s}; hw::eachOf(p->fields(), d); return s + "}"; }
        return which<All, If, I + 1>(m);
    }
    else { static_cast<void>(m); return "?"; }
}
template <typename M> std::string tf(const M& m) { return hw::Tf<M, M::hasTransportFields()>::get(m); }

// TFix: knows the names of the layers
template <typename F, typename If, typename All, bool THasId, typename TFix> struct FObjT : public FObj
{
    F f;
    std::unique_ptr<If> m;
    std::size_t midx = 0;

    template <typename P> std::string readInto(P& p, const If* fixed, const std::string& a)
    {
        auto b = unhex(a); std::vector<std::uint8_t> buf(b); buf.push_back(0xa5);
        const std::uint8_t* it = buf.data();
        typename F::AllFields fields;
        std::size_t missing = 0;
        auto es = f.readFieldsCached(fields, p, it, b.size(), comms::frame::missingSize(missing));
        std::string out = "R" + std::to_string(static_cast<int>(es));
        if ((es == comms::ErrorStatus::Success) || (es == comms::ErrorStatus::InvalidMsgId)) { out += ":" + std::to_string(it - buf.data()); }
        if (es != comms::ErrorStatus::Success) { return out; }
        const If* got = fixed;
        if constexpr (THasId) { got = p ? &(*p) : nullptr; }
        if (got == nullptr) { return out + ":none"; }
        return out + ":" + which<All, If>(*got) + tf(*got) + "[" + layers<0, F::McDepth - 1>(fields) + "]";
    }
    std::string read(const std::string& a)
    {
        if constexpr (THasId) { typename F::MsgPtr p; return readInto(p, nullptr, a); }
        else {
            std::string out;
            withMsg<All, 0>(midx, [&](auto* t) { typename std::remove_pointer<decltype(t)>::type msg; out = this->readInto(msg, &msg, a); });
            return out;
        }
    }
    std::string write() const
    {
        auto n = f.length(*m);
        std::vector<std::uint8_t> buf(n + 64, 0x5a);
        auto* it = buf.data();
        auto es = f.write(*m, it, buf.size());
        if (es != comms::ErrorStatus::Success) { return "W!" + std::to_string(static_cast<int>(es)); }
        auto len = static_cast<std::size_t>(it - buf.data());
        std::string out = "W" + hex(buf.data(), len);
        if (len != n) { out += "!len" + std::to_string(n); }
        std::vector<std::uint8_t> b2(len + 1, 0x5a);
        it = b2.data(); if ((f.write(*m, it, len) != comms::ErrorStatus::Success) || (!std::equal(b2.begin(), b2.begin() + len, buf.begin()))) { out += "!fit"; }
        if (0 < len) { it = b2.data(); if (f.write(*m, it, len - 1) == comms::ErrorStatus::Success) { out += "!over"; } }
        return out;
    }
    std::string run(std::istream& in) override
    {
        std::string op, out;
        while (in >> op) {
            char c = op[0]; std::string a = op.substr(1);
            if (c == 'q') { auto e = a.find('='); TFix::pseudo(f, std::stoul(a.substr(0, e)), a.substr(e + 1)); }
            else if (c == 'm') {
                auto e = a.find(':'); midx = std::stoul(a.substr(0, e)); auto b = unhex(a.substr(e + 1)); b.push_back(0);
                withMsg<All, 0>(midx, [&](auto* t) {
                    auto* p = new typename std::remove_pointer<decltype(t)>::type; m.reset(p);
                    const std::uint8_t* it = b.data();
                    auto es = comms::details::mcMsgRead(*p, it, b.size() - 1);
                    if (es != comms::ErrorStatus::Success) { out += " m!" + std::to_string(static_cast<int>(es)); } });
            }
            else if (c == 't') { auto e = a.find('='); auto p = hw::path(a.substr(0, e)); hw::Tf<If, If::hasTransportFields()>::set(*m, p, a.substr(e + 1)); }
            else if (c == 'W') { out += " " + write(); }
            else if (c == 'r') { out += " " + read(a); }
            else if (c == 'N') { out += " N" + TFix::names(); }
        }
        return out;
    }
};
template <typename F, typename If, typename All, bool THasId, typename TFix> FObj* mk() { return new FObjT<F, If, All, THasId, TFix>; }

inline int loop(const std::vector<FObj* (*)()>& all)
{
    std::string l; std::ios::sync_with_stdio(false);
    while (std::getline(std::cin, l)) {
        std::istringstream in(l); std::size_t n = 0; in >> n; std::string out;
        try { std::unique_ptr<FObj> m(all.at(n)()); out = m->run(in); }
        catch (const std::exception& e) { out = std::string(" X") + e.what(); }
        std::cout << out.substr(out.empty() ? 0 : 1) << "\n";
    }
    std::cout.flush();
    return 0;
}
}
