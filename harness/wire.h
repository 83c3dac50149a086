// Drives the generated C++ definition of a schema: one line in, one line out. Every line names a message (its place in the list of all messages) and the operations performed on a fresh object.
#pragma once
#include <algorithm>
#include <cctype>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <iterator>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>
#include "comms/comms.h"

namespace hw {

inline std::string hex(const std::uint8_t* p, std::size_t n)
{ static const char* D = "0123456789abcdef"; std::string s; for (std::size_t i = 0; i < n; ++i) { s += D[p[i] >> 4]; s += D[p[i] & 15]; } return s; }
inline std::vector<std::uint8_t> unhex(const std::string& s)
{ std::vector<std::uint8_t> v; for (std::size_t i = 0; i + 1 < s.size(); i += 2) { v.push_back(static_cast<std::uint8_t>(std::stoul(s.substr(i, 2), nullptr, 16))); } return v; }

struct Path { std::vector<std::size_t> p; std::size_t i = 0; bool end() const { return i == p.size(); } std::size_t next() { if (end()) { throw std::runtime_error("path"); } return p[i++]; } };

template <typename T> std::string num(T v, typename std::enable_if<std::is_signed<T>::value>::type* = nullptr) { return std::to_string(static_cast<long long>(v)); }
template <typename T> std::string num(T v, typename std::enable_if<!std::is_signed<T>::value>::type* = nullptr) { return std::to_string(static_cast<unsigned long long>(v)); }
template <typename T> T tonum(const std::string& s) { return std::is_signed<T>::value ? static_cast<T>(std::stoll(s)) : static_cast<T>(std::stoull(s)); }

// ---- dumping
template <typename F> std::string dump(const F& f);
struct TupDump { std::string& s; template <typename F> void operator()(const F& f) { if (s.back() != '{') { s += ','; } s += dump(f); } };
template <std::size_t I, typename T, typename Fn> void each(T& t, Fn& fn, std::true_type) { static_cast<void>(t); static_cast<void>(fn); }
template <std::size_t I, typename T, typename Fn> void each(T& t, Fn& fn, std::false_type)
{ fn(std::get<I>(t)); each<I + 1>(t, fn, std::integral_constant<bool, I + 1 == std::tuple_size<typename std::decay<T>::type>::value>()); }
template <typename T, typename Fn> void eachOf(T& t, Fn& fn) { each<0>(t, fn, std::integral_constant<bool, 0 == std::tuple_size<typename std::decay<T>::type>::value>()); }

template <typename B, typename T, typename... O> std::string dumpI(const comms::field::IntValue<B, T, O...>& f) { return num(f.getValue()); }
template <typename B, typename T, typename... O> std::string dumpI(const comms::field::EnumValue<B, T, O...>& f) { return num(static_cast<typename std::underlying_type<T>::type>(f.getValue())); }
template <typename B, typename... O> std::string dumpI(const comms::field::BitmaskValue<B, O...>& f) { return num(f.getValue()); }
template <typename B, typename T, typename... O> std::string dumpI(const comms::field::FloatValue<B, T, O...>& f)
{
    T v = f.getValue(); std::uint8_t b[sizeof(T)]; std::memcpy(b, &v, sizeof(T)); std::string s = "x";
    for (std::size_t i = sizeof(T); i > 0; --i) { s += hex(b + i - 1, 1); } return s;
}
template <typename B, typename... O> std::string dumpI(const comms::field::String<B, O...>& f)
{ auto& v = f.getValue(); std::string s; for (std::size_t i = 0; i < v.size(); ++i) { auto c = static_cast<std::uint8_t>(v[i]); s += hex(&c, 1); } return "\"" + s + "\""; }
template <typename B, typename... O> std::string dumpI(const comms::field::ArrayList<B, std::uint8_t, O...>& f)
{ auto& v = f.getValue(); std::string s; for (std::size_t i = 0; i < v.size(); ++i) { std::uint8_t c = v[i]; s += hex(&c, 1); } return "\"" + s + "\""; }
template <typename E> std::string dumpE(const E& e, std::true_type) { return num(e); }
template <typename E> std::string dumpE(const E& e, std::false_type) { return dump(e); }
template <typename B, typename E, typename... O> std::string dumpI(const comms::field::ArrayList<B, E, O...>& f)
{ std::string s = "["; auto& v = f.getValue(); for (std::size_t i = 0; i < v.size(); ++i) { if (i) { s += ','; } s += dumpE(v[i], std::is_integral<E>()); } return s + "]"; }
template <typename B, typename M, typename... O> std::string dumpI(const comms::field::Bundle<B, M, O...>& f) { std::string s = "{"; TupDump d{s}; eachOf(f.getValue(), d); return s + "}"; }
template <typename B, typename M, typename... O> std::string dumpI(const comms::field::Bitfield<B, M, O...>& f) { std::string s = "{"; TupDump d{s}; eachOf(f.getValue(), d); return s + "}"; }
template <typename F, typename... O> std::string dumpI(const comms::field::Optional<F, O...>& f)
{ return f.isMissing() ? std::string("M") : (f.isTentative() ? "T(" : "E(") + dump(f.field()) + ")"; }
struct VarDump { std::string s; template <std::size_t I, typename F> void operator()(const F& f) { s = "v" + std::to_string(I) + "(" + dump(f) + ")"; } };
template <typename B, typename M, typename... O> std::string dumpI(const comms::field::Variant<B, M, O...>& f)
{ VarDump d{"v-"}; if (f.currentFieldValid()) { f.currentFieldExec(d); } return d.s; }
template <typename F> std::string dump(const F& f) { return dumpI(f); }

// ---- setting
template <typename F> void set(F& f, Path& p, const std::string& v);
struct TupSet { std::size_t want; Path& p; const std::string& v; std::size_t i = 0; bool done = false; TupSet(std::size_t w, Path& pp, const std::string& vv) : want(w), p(pp), v(vv) {}
    template <typename F> void operator()(F& f) { if (i++ == want) { done = true; set(f, p, v); } } };
template <typename T> void setIn(T& t, Path& p, const std::string& v) { TupSet s(p.next(), p, v); eachOf(t, s); if (!s.done) { throw std::runtime_error("no such member"); } }
template <typename B, typename T, typename... O> void setI(comms::field::IntValue<B, T, O...>& f, Path&, const std::string& v) { f.setValue(tonum<T>(v)); }
template <typename B, typename T, typename... O> void setI(comms::field::EnumValue<B, T, O...>& f, Path&, const std::string& v) { f.setValue(static_cast<T>(tonum<typename std::underlying_type<T>::type>(v))); }
template <typename B, typename... O> void setI(comms::field::BitmaskValue<B, O...>& f, Path&, const std::string& v) { f.setValue(std::stoull(v)); }
template <typename B, typename T, typename... O> void setI(comms::field::FloatValue<B, T, O...>& f, Path&, const std::string& v)
{ auto b = unhex(v.substr(1)); std::vector<std::uint8_t> r(b.rbegin(), b.rend()); T t; std::memcpy(&t, r.data(), sizeof(T)); f.setValue(t); }
template <typename B, typename... O> void setI(comms::field::String<B, O...>& f, Path&, const std::string& v) { auto b = unhex(v); f.setValue(typename comms::field::String<B, O...>::ValueType(reinterpret_cast<const char*>(b.data()), b.size())); }
template <typename B, typename... O> void setI(comms::field::ArrayList<B, std::uint8_t, O...>& f, Path&, const std::string& v) { auto b = unhex(v); f.value().assign(b.begin(), b.end()); }
template <typename E> void setE(E& e, Path&, const std::string& v, std::true_type) { e = tonum<E>(v); }
template <typename E> void setE(E& e, Path& p, const std::string& v, std::false_type) { set(e, p, v); }
template <typename B, typename E, typename... O> void setI(comms::field::ArrayList<B, E, O...>& f, Path& p, const std::string& v)
{
    if (!p.end()) { setE(f.value().at(p.next()), p, v, std::is_integral<E>()); return; }
    std::size_t n = std::stoul(v); f.value().clear(); while (f.value().size() < n) { f.createBack(); }
}
template <typename B, typename M, typename... O> void setI(comms::field::Bundle<B, M, O...>& f, Path& p, const std::string& v) { setIn(f.value(), p, v); }
template <typename B, typename M, typename... O> void setI(comms::field::Bitfield<B, M, O...>& f, Path& p, const std::string& v) { setIn(f.value(), p, v); }
template <typename F, typename... O> void setI(comms::field::Optional<F, O...>& f, Path& p, const std::string& v)
{ if (p.end()) { if (v == "E") { f.setExists(); } else if (v == "M") { f.setMissing(); } else { f.setTentative(); } return; } p.next(); set(f.field(), p, v); }
struct VarSet { Path& p; const std::string& v; template <std::size_t I, typename F> void operator()(F& f) { set(f, p, v); } };
template <typename B, typename M, typename... O> void setI(comms::field::Variant<B, M, O...>& f, Path& p, const std::string& v)
{ if (p.end()) { f.selectField(std::stoul(v)); return; } p.next(); VarSet s{p, v}; f.currentFieldExec(s); }
template <typename F> void set(F& f, Path& p, const std::string& v) { setI(f, p, v); }

inline Path path(const std::string& s) { Path p; std::stringstream ss(s); std::string x; while (std::getline(ss, x, '.')) { p.p.push_back(std::stoul(x)); } return p; }

template <typename M, bool B> struct Ver { static void set(M& m, const std::string& v) { m.version() = static_cast<typename std::decay<decltype(m.version())>::type>(std::stoull(v)); } };
template <typename M> struct Ver<M, false> { static void set(M&, const std::string&) {} };
template <typename M, bool B> struct Tf { static void set(M& m, Path& p, const std::string& v) { setIn(m.transportFields(), p, v); } static std::string get(const M& m) { std::string s = "{"; TupDump d{s}; eachOf(m.transportFields(), d); return s + "}"; } };
template <typename M> struct Tf<M, false> { static void set(M&, Path&, const std::string&) {} static std::string get(const M&) { return "-"; } };
template <typename M, bool B> struct Doc { static const char* name() { return M::doName(); } };
template <typename M> struct Doc<M, false> { static const char* name() { return "-"; } };

struct Obj
{
    virtual ~Obj() = default;
    virtual void ver(const std::string& v) = 0;
    virtual void tset(Path& p, const std::string& v) = 0;
    virtual std::string tget() const = 0;
    virtual void set(Path& p, const std::string& v) = 0;
    virtual comms::ErrorStatus read(const std::uint8_t*& it, std::size_t n) = 0;
    virtual comms::ErrorStatus write(std::uint8_t*& it, std::size_t n) const = 0;
    virtual std::string dump() const = 0;
    virtual std::size_t length() const = 0;
    virtual bool valid() const = 0;
    virtual bool refresh() = 0;
    virtual void update() = 0;
    virtual std::string info() const = 0;
    virtual std::string special() = 0;
    virtual bool copyEq() const = 0;
};

template <typename M> struct Special { static std::string go(M&) { return std::string(); } };   // specialised for messages the names of which are explored
// answers of the generated classes, without spaces
inline std::string esc(const char* s)
{ if (!s) { return "~"; } std::string r = "'"; for (; *s; ++s) { auto c = static_cast<unsigned char>(*s); if ((c < 128) && (std::isalnum(c) != 0)) { r += *s; } else { r += '%'; r += hex(&c, 1); } } return r; }
inline std::string flag(bool v) { return v ? "1" : "0"; }
template <typename T> std::string num_(T v, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr) { return num(v); }
template <typename T> std::string num_(T v, typename std::enable_if<std::is_floating_point<T>::value>::type* = nullptr)
{ std::uint8_t b[sizeof(T)]; std::memcpy(b, &v, sizeof(T)); std::string s = "x"; for (std::size_t i = sizeof(T); i > 0; --i) { s += hex(b + i - 1, 1); } return s; }
template <typename E> std::string en(E e) { return num(static_cast<typename std::underlying_type<E>::type>(e)); }
template <typename F> std::string spMap()
{ auto m = F::specialNamesMap(); std::vector<std::string> v; for (std::size_t i = 0; i < m.second; ++i) { v.push_back(std::string(m.first[i].second) + "=" + num_(m.first[i].first)); } std::sort(v.begin(), v.end()); std::string s; for (auto& x : v) { s += (s.empty() ? "" : ",") + x; } return s; }
template <typename A, typename B> std::string same(A& a, B& b) { return flag(static_cast<const void*>(&a) == static_cast<const void*>(&b)); }
template <typename A, typename B> std::string varCmp(const A& a, const B& b) { return flag(a == b) + flag(a < b) + flag(false); }
template <typename A> std::string varAssign(const A& a) { A b; b = a; A c; A d(a); c = std::move(d); return flag((a == b) && (a == c) && !(a != c)); }
struct NoUnits {};
struct NoScaling { static constexpr std::intmax_t num = 1; static constexpr std::intmax_t denom = 1; };
struct NoOff { static constexpr std::intmax_t value = 0; };
template <typename F> using UnitsOf = comms::details::Find<comms::option::def::mc::UnitsTag, NoUnits, typename F::McOpts>;
template <typename F> using ScalingOf = comms::details::Find<comms::option::def::mc::ScalingRatioTag, NoScaling, typename F::McOpts>;
template <typename F> using DispOff = comms::details::Find<comms::option::def::mc::DisplayOffsetTag, NoOff, typename F::McOpts>;

inline std::string nosp(std::string s) { for (auto& c : s) { if (c == ' ') { c = '_'; } } return s; }

template <typename M> struct ObjT : public Obj
{
    M m;
    void ver(const std::string& v) override { Ver<M, M::hasVersionInTransportFields()>::set(m, v); }
    void tset(Path& p, const std::string& v) override { Tf<M, M::hasTransportFields()>::set(m, p, v); }
    std::string tget() const override { return Tf<M, M::hasTransportFields()>::get(m); }
    void set(Path& p, const std::string& v) override { setIn(m.fields(), p, v); }
    comms::ErrorStatus read(const std::uint8_t*& it, std::size_t n) override { return comms::details::mcMsgRead(m, it, n); }
    comms::ErrorStatus write(std::uint8_t*& it, std::size_t n) const override { return m.doWrite(it, n); }
    std::string dump() const override { std::string s = "{"; TupDump d{s}; eachOf(m.fields(), d); return s + "}"; }
    std::size_t length() const override { return m.doLength(); }
    bool valid() const override { return m.doValid(); }
    bool refresh() override { return m.doRefresh(); }
    void update() override { m.doFieldsVersionUpdate(); }
    std::string info() const override { return std::to_string(M::doMinLength()) + ":" + std::to_string(M::doMaxLength()) + ":" + num(M::doGetId()) + ":" + nosp(M::doName()); }
    std::string special() override { return Special<M>::go(m); }
    bool copyEq() const override { M k(m); return k == m; }
};

inline std::string ops(Obj& m, std::istream& in)
{
    std::string op, out;
    while (in >> op) {
        char c = op[0]; std::string a = op.substr(1);
        if (c == 'v') { m.ver(a); }
        else if (c == 't') { auto e = a.find('='); auto p = path(a.substr(0, e)); m.tset(p, a.substr(e + 1)); }
        else if (c == 'T') { out += " T" + m.tget(); }
        else if (c == 's') { auto e = a.find('='); auto p = path(a.substr(0, e)); m.set(p, a.substr(e + 1)); }
        else if (c == 'r') {
            auto b = unhex(a); std::vector<std::uint8_t> buf(b); buf.push_back(0xa5);
            const std::uint8_t* it = buf.data();
            auto es = m.read(it, b.size());
            out += " R" + std::to_string(static_cast<int>(es));
            if (es != comms::ErrorStatus::Success) { return out; }
            out += ":" + std::to_string(it - buf.data());
        }
        else if (c == 'd') { out += " D" + m.dump(); }
        else if (c == 'l') { out += " L" + std::to_string(m.length()); }
        else if (c == 'V') { out += m.valid() ? " V1" : " V0"; }
        else if (c == 'f') { out += m.refresh() ? " F1" : " F0"; }
        else if (c == 'u') { m.update(); }
        else if (c == 'S') { out += " S" + m.special(); }
        else if (c == 'w') {
            std::size_t len = m.length();
            std::vector<std::uint8_t> buf(len + 4096, 0x5a);
            std::uint8_t* it = buf.data();
            auto es = m.write(it, buf.size());
            if (es != comms::ErrorStatus::Success) { out += " W!" + std::to_string(static_cast<int>(es)); continue; }
            out += " W" + hex(buf.data(), static_cast<std::size_t>(it - buf.data()));
            // exactly the announced space is enough, one byte less is not
            std::size_t n = static_cast<std::size_t>(it - buf.data());
            if (n == len && n > 0) {
                it = buf.data(); if (m.write(it, n) != comms::ErrorStatus::Success) { out += "!fit"; }
                it = buf.data(); if (m.write(it, n - 1) == comms::ErrorStatus::Success) { out += "!over"; }
            }
        }
        else if (c == 'i') { out += " I" + m.info(); }
        else if (c == 'c') { out += m.copyEq() ? " C1" : " C0"; }
    }
    return out;
}

template <typename M> Obj* mk() { return new ObjT<M>; }

inline int loop(const std::vector<Obj* (*)()>& all)
{
    std::string l; std::ios::sync_with_stdio(false);
    while (std::getline(std::cin, l)) {
        std::istringstream in(l); std::size_t n = 0; in >> n; std::string out;
        try { if (n < all.size()) { std::unique_ptr<Obj> m(all[n]()); out = ops(*m, in); } else { out = " ?"; } }
        catch (const std::exception& e) { out = std::string(" X") + e.what(); }
        std::cout << out.substr(out.empty() ? 0 : 1) << "\n";
    }
    std::cout.flush();
    return 0;
}
}
