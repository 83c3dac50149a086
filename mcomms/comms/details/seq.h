#pragma once
#include "comms/details/base.h"
#include "comms/details/num.h"
#include "comms/Field.h"
#include "comms/util/ArrayView.h"
#include "comms/util/StringView.h"
#include "comms/util/StaticVector.h"
#include "comms/util/assign.h"
namespace comms { namespace details {

struct NoPrefix
{
    struct Elem
    {
        static constexpr std::size_t minLength() { return 0U; }
        static constexpr std::size_t maxLength() { return 0U; }
    };
    using type = Elem;
};
struct NoSize { static constexpr std::size_t value = 0U; };

// Common implementation of String and ArrayList.
// TVal - storage, TElem - field type of the element or void for raw bytes
template <typename TFieldBase, typename TVal, typename TElem, typename... TOptions>
class SeqField : public TFieldBase, public VersionHolder<hasOpt<option::def::VersionStorage, Flatten<TOptions...> >()>
{
protected:
    using McOpts = Flatten<TOptions...>;
    using McVerBase = VersionHolder<hasOpt<option::def::VersionStorage, McOpts>()>;
    static constexpr bool McRaw = std::is_void<TElem>::value;
    static constexpr bool McHasCount = hasTag<option::def::mc::SequenceSizeFieldPrefixTag, McOpts>();
    static constexpr bool McHasLen = hasTag<option::def::mc::SequenceSerLengthFieldPrefixTag, McOpts>();
    static constexpr bool McHasElemLen = hasTag<option::def::mc::SequenceElemSerLengthFieldPrefixTag, McOpts>();
    static constexpr bool McHasFixedElemLen = hasTag<option::def::mc::SequenceElemFixedSerLengthFieldPrefixTag, McOpts>();
    static constexpr bool McHasTerm = hasTag<option::def::mc::SequenceTerminationFieldSuffixTag, McOpts>();
    static constexpr bool McHasFixed = hasTag<option::def::mc::SequenceFixedSizeTag, McOpts>();
    static constexpr bool McForceCount = hasOpt<option::def::SequenceSizeForcingEnabled, McOpts>();
    static constexpr bool McForceLen = hasOpt<option::def::SequenceLengthForcingEnabled, McOpts>();
    static constexpr bool McForceElemLen = hasOpt<option::def::SequenceElemLengthForcingEnabled, McOpts>();
    static constexpr bool McHasFail = hasTag<option::def::mc::FailOnInvalidTag, McOpts>();
    static constexpr std::size_t McFixedSize = Find<option::def::mc::SequenceFixedSizeTag, NoSize, McOpts>::value;
    using McCountF = typename Find<option::def::mc::SequenceSizeFieldPrefixTag, NoPrefix, McOpts>::type;
    using McLenF = typename Find<option::def::mc::SequenceSerLengthFieldPrefixTag, NoPrefix, McOpts>::type;
    using McElemLenF = typename Find<option::def::mc::SequenceElemSerLengthFieldPrefixTag, NoPrefix, McOpts>::type;
    using McFixedElemLenF = typename Find<option::def::mc::SequenceElemFixedSerLengthFieldPrefixTag, NoPrefix, McOpts>::type;
    using McTermF = typename Find<option::def::mc::SequenceTerminationFieldSuffixTag, NoPrefix, McOpts>::type;
    static_assert((McHasCount + McHasLen + McHasTerm + McHasFixed + McForceCount + McForceLen) <= 1, "Conflicting sequence options");
    static_assert((McHasElemLen + McHasFixedElemLen + McForceElemLen) <= 1, "Conflicting sequence element options");
    template <typename T, bool> struct ElemLens { static constexpr std::size_t minL = 1U, maxL = 1U; static constexpr bool ver = false; static constexpr bool ref = false; };
    template <typename T> struct ElemLens<T, false> { static constexpr std::size_t minL = T::minLength(), maxL = T::maxLength();
        static constexpr bool ver = T::isVersionDependent(); static constexpr bool ref = T::hasNonDefaultRefresh(); };
    using McEL = ElemLens<TElem, McRaw>;
    struct mcVer { static constexpr bool value = McEL::ver; };
    static constexpr bool McView = std::is_base_of<util::ArrayView<std::uint8_t>, TVal>::value || std::is_base_of<util::ArrayView<char>, TVal>::value;

public:
    using FieldBase = TFieldBase;
    using ValueType = TVal;
    using VersionType = details::VersionType;
    using McUnits = details::NoUnits;
    using Endian = typename TFieldBase::Endian;

    SeqField() = default;
    explicit SeqField(const ValueType& v) : m_value(v) {}
    ValueType& value() { return m_value; }
    const ValueType& value() const { return m_value; }
    const ValueType& getValue() const { return m_value; }
    template <typename U> void setValue(U&& v) { if constexpr (!hasFixedValue()) { m_value = std::forward<U>(v); } else { static_cast<void>(v); } }
    void clear() { m_value.clear(); }

    static constexpr bool hasFixedValue() { return hasOpt<option::def::FixedValue, McOpts>(); }
    static constexpr bool isVersionDependent() { return hasOpt<option::def::VersionStorage, McOpts>() || Find<option::def::mc::HasVersionDependentMembersTag, mcVer, McOpts>::value; }
    static constexpr bool hasNonDefaultRefresh() { return hasOpt<option::def::HasCustomRefresh, McOpts>() || McEL::ref; }
    static constexpr bool hasReadNoStatus() { return false; }
    static constexpr bool hasWriteNoStatus() { return false; }
    static constexpr bool hasFixedSize() { return McHasFixed; }
    static constexpr std::size_t fixedSize() { return McFixedSize; }

    void forceReadElemCount(std::size_t c) { static_assert(McForceCount, "not enabled"); m_count = c; }
    void clearReadElemCount() { m_count = MaxLen; }
    void forceReadLength(std::size_t c) { static_assert(McForceLen, "not enabled"); m_count = c; }
    void clearReadLengthForcing() { m_count = MaxLen; }
    void forceReadElemLength(std::size_t c) { static_assert(McForceElemLen, "not enabled"); m_elemLen = c; }
    void clearReadElemLengthForcing() { m_elemLen = MaxLen; }

    std::size_t max_size() const
    {
        std::size_t r = mcCap();
        if constexpr (McHasFixed) { r = minOf(r, McFixedSize); }
        if constexpr (McHasCount) { r = minOf(r, static_cast<std::size_t>(McCountF::maxValue())); }
        if constexpr (McHasLen && McRaw) { r = minOf(r, static_cast<std::size_t>(McLenF::maxValue())); }
        return r;
    }

    static constexpr std::size_t mcPrefMin() { return addLen(addLen(McCountF::minLength(), McLenF::minLength()), McFixedElemLenF::minLength()); }
    static constexpr std::size_t mcPrefMax() { return addLen(addLen(McCountF::maxLength(), McLenF::maxLength()), McFixedElemLenF::maxLength()); }
    static constexpr std::size_t minLength()
    { return addLen(mcPrefMin(), addLen(McTermF::minLength(), McHasFixed ? mulLen(McFixedSize, addLen(McEL::minL, McElemLenF::minLength())) : 0U)); }
    static constexpr std::size_t maxLength()
    { return McHasFixed ? addLen(mcPrefMax(), mulLen(McFixedSize, addLen(McEL::maxL, McElemLenF::maxLength()))) : MaxLen; }

    bool canWrite() const { return true; }
    bool valid() const
    {
        if constexpr (McHasLen) { McLenF f; mcAssign(f, mcBodyLen()); if (!f.valid()) { return false; } }
        if constexpr (McHasCount) { McCountF f; mcAssign(f, m_value.size()); if (!f.valid()) { return false; } }
        if constexpr (McHasFixed) { if (McFixedSize < m_value.size()) { return false; } }
        if constexpr (!McRaw) { for (auto& e : m_value) { if (!e.valid()) { return false; } } }
        return true;
    }
    bool refresh()
    {
        bool r = false;
        if constexpr (!McRaw) { if constexpr (McEL::ref) { for (auto& e : m_value) { bool x = e.refresh(); r = r || x; } } }
        return r;
    }
    bool setVersion(VersionType v)
    {
        bool r = McVerBase::mcSetVersion(v);
        m_ver = v;
        if constexpr (!McRaw) { if constexpr (isVersionDependent() && McEL::ver) { for (auto& e : m_value) { bool x = e.setVersion(v); r = r || x; } } }
        return r;
    }

    std::size_t length() const
    {
        std::size_t r = mcBodyLen();
        if constexpr (McHasLen) { McLenF f; mcAssign(f, r); r += f.length(); }
        return r;
    }

    template <typename TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        m_value.clear();
        auto es = mcRead(iter, len);
        if constexpr (McHasFail) {
            if ((es == ErrorStatus::Success) && (!fullValid<McOpts>(this))) { return Find<option::def::mc::FailOnInvalidTag, NoFail, McOpts>::value; }
        }
        return es;
    }

    template <typename TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    {
        if (len < length()) { return ErrorStatus::BufferOverflow; }
        if constexpr (McHasLen) { McLenF f; mcAssign(f, mcBodyLen()); auto es = mcWr(f, iter, len); if (es != ErrorStatus::Success) { return es; } }
        if constexpr (McHasCount) { McCountF f; mcAssign(f, m_value.size()); auto es = mcWr(f, iter, len); if (es != ErrorStatus::Success) { return es; } }
        if constexpr (McHasFixedElemLen) {
            McFixedElemLenF f; mcAssign(f, mcFixedElemLen());
            auto es = mcWr(f, iter, len); if (es != ErrorStatus::Success) { return es; }
        }
        std::size_t cnt = 0U;
        for (auto& e : m_value) {
            if constexpr (McHasFixed) { if (McFixedSize <= cnt) { break; } }
            auto es = mcWriteElem(e, iter, len);
            if (es != ErrorStatus::Success) { return es; }
            ++cnt;
        }
        if constexpr (McHasFixed) {
            for (; cnt < McFixedSize; ++cnt) {
                typename TVal::value_type e{};
                mcPrepElem(e);
                auto es = mcWriteElem(e, iter, len);
                if (es != ErrorStatus::Success) { return es; }
            }
        }
        if constexpr (McHasTerm) { McTermF f; auto es = mcWr(f, iter, len); if (es != ErrorStatus::Success) { return es; } }
        return ErrorStatus::Success;
    }

    bool mcEq(const SeqField& o) const { return m_value == o.m_value; }
    bool mcLt(const SeqField& o) const { return m_value < o.m_value; }

protected:
    template <typename F> static void mcAssign(F& f, std::size_t v) { f.setValue(v); }
    template <typename F, typename TIter> static ErrorStatus mcWr(const F& f, TIter& iter, std::size_t& len)
    { auto es = f.write(iter, len); if (es == ErrorStatus::Success) { len -= f.length(); } return es; }
    template <typename F, typename TIter> static ErrorStatus mcRd(F& f, TIter& iter, std::size_t& len)
    { auto from = iter; auto es = f.read(iter, len); if (es == ErrorStatus::Success) { len -= static_cast<std::size_t>(std::distance(from, iter)); } return es; }

    template <typename V> static auto mcCapImpl(int) -> decltype(V::mcCap()) { return V::mcCap(); }
    template <typename V> static std::size_t mcCapImpl(...) { return MaxLen; }
    static std::size_t mcCap() { return mcCapImpl<TVal>(0); }

    template <typename E> void mcPrepElem(E& e) const
    {
        static_cast<void>(e);
        if constexpr (!McRaw) { if constexpr (isVersionDependent() && McEL::ver) { e.setVersion(m_ver); } }
    }
    template <typename E> static std::size_t mcElemLength(const E& e)
    {
        static_cast<void>(e);
        if constexpr (McRaw) { return sizeof(E); }
        else {
            auto l = e.length();
            if constexpr (McHasElemLen) { McElemLenF f; mcAssign(f, l); l += f.length(); }
            return l;
        }
    }
    std::size_t mcFixedElemLen() const
    {
        if constexpr (McRaw) { return 1U; }
        else { if (m_value.empty()) { TElem e; mcPrepElem(e); return e.length(); } return m_value.front().length(); }
    }
    // length without the serialisation length prefix
    std::size_t mcBodyLen() const
    {
        std::size_t r = 0U;
        std::size_t cnt = 0U;
        if constexpr (McHasCount) { McCountF f; mcAssign(f, m_value.size()); r += f.length(); }
        if constexpr (McHasFixedElemLen) { McFixedElemLenF f; mcAssign(f, mcFixedElemLen()); r += f.length(); }
        for (auto& e : m_value) {
            if constexpr (McHasFixed) { if (McFixedSize <= cnt) { break; } }
            r += mcElemLength(e); ++cnt;
        }
        if constexpr (McHasFixed) { for (; cnt < McFixedSize; ++cnt) { typename TVal::value_type e{}; mcPrepElem(e); r += mcElemLength(e); } }
        if constexpr (McHasTerm) { McTermF f; r += f.length(); }
        return r;
    }

    template <typename E, typename TIter> static ErrorStatus mcWriteElem(const E& e, TIter& iter, std::size_t& len)
    {
        if constexpr (McRaw) { writeBytes(iter, static_cast<std::uint8_t>(e), 1U, true); --len; return ErrorStatus::Success; }
        else {
            if constexpr (McHasElemLen) {
                McElemLenF f; mcAssign(f, e.length());
                auto es = mcWr(f, iter, len); if (es != ErrorStatus::Success) { return es; }
            }
            return mcWr(e, iter, len);
        }
    }

    // reads one element
    template <typename TIter> ErrorStatus mcReadElem(TIter& iter, std::size_t& len, std::size_t fixedElemLen)
    {
        if (mcCap() <= m_value.size()) { return ErrorStatus::BufferOverflow; }
        if constexpr (McRaw) {
            if (len == 0U) { return ErrorStatus::NotEnoughData; }
            static_cast<void>(fixedElemLen);
            m_value.push_back(static_cast<typename TVal::value_type>(readBytes(iter, 1U, true)));
            --len;
            return ErrorStatus::Success;
        }
        else {
            m_value.emplace_back();
            auto& e = m_value.back();
            mcPrepElem(e);
            std::size_t bound = fixedElemLen;
            if constexpr (McHasElemLen) {
                McElemLenF f;
                auto es = mcRd(f, iter, len);
                if (es != ErrorStatus::Success) { m_value.pop_back(); return es; }
                bound = static_cast<std::size_t>(f.getValue());
            }
            if (bound == MaxLen) {
                auto es = mcRd(e, iter, len);
                if (es != ErrorStatus::Success) { m_value.pop_back(); }
                return es;
            }
            if (len < bound) { m_value.pop_back(); return ErrorStatus::NotEnoughData; }
            auto from = iter;
            auto es = e.read(iter, bound);
            if (es != ErrorStatus::Success) { m_value.pop_back(); return (es == ErrorStatus::NotEnoughData) ? ErrorStatus::ProtocolError : es; }
            auto consumed = static_cast<std::size_t>(std::distance(from, iter));
            COMMS_ASSERT(consumed <= bound);
            std::advance(iter, static_cast<std::ptrdiff_t>(bound - consumed));
            len -= bound;
            return es;
        }
    }

    template <typename TIter> ErrorStatus mcReadN(std::size_t n, TIter& iter, std::size_t& len, std::size_t elemLen)
    {
        if constexpr (McView) {
            if (len < n) { return ErrorStatus::NotEnoughData; }
            auto to = iter; std::advance(to, static_cast<std::ptrdiff_t>(n));
            m_value = TVal(reinterpret_cast<const typename TVal::value_type*>((n == 0U) ? nullptr : &(*iter)), n);
            iter = to; len -= n; static_cast<void>(elemLen);
        }
        else {
            for (std::size_t i = 0U; i < n; ++i) {
                auto es = mcReadElem(iter, len, elemLen);
                if (es != ErrorStatus::Success) { return es; }
            }
        }
        return ErrorStatus::Success;
    }

    template <typename TIter> ErrorStatus mcReadAll(TIter& iter, std::size_t& len, std::size_t elemLen)
    {
        if constexpr (McView) { return mcReadN(len, iter, len, elemLen); }
        else {
            while (len != 0U) {
                auto before = len;
                auto es = mcReadElem(iter, len, elemLen);
                if (es != ErrorStatus::Success) { return es; }
                if (before == len) { return ErrorStatus::ProtocolError; } // element without any data
            }
            return ErrorStatus::Success;
        }
    }

    template <typename TIter> ErrorStatus mcRead(TIter& iter, std::size_t len)
    {
        std::size_t elemLen = m_elemLen;
        if constexpr (McHasLen || McForceLen) {
            std::size_t bodyLen = m_count;
            if constexpr (McHasLen) {
                McLenF f;
                auto es = mcRd(f, iter, len);
                if (es != ErrorStatus::Success) { return es; }
                bodyLen = static_cast<std::size_t>(f.getValue());
            }
            if (bodyLen == MaxLen) { bodyLen = len; }
            if (len < bodyLen) { return ErrorStatus::NotEnoughData; }
            auto from = iter;
            auto rem = bodyLen;
            if constexpr (McHasFixedElemLen) {
                McFixedElemLenF f;
                auto es = mcRd(f, iter, rem);
                if (es != ErrorStatus::Success) { return (es == ErrorStatus::NotEnoughData) ? ErrorStatus::ProtocolError : es; }
                elemLen = static_cast<std::size_t>(f.getValue());
            }
            auto es = mcReadAll(iter, rem, elemLen);
            if (es != ErrorStatus::Success) { return (es == ErrorStatus::NotEnoughData) ? ErrorStatus::ProtocolError : es; }
            auto consumed = static_cast<std::size_t>(std::distance(from, iter));
            COMMS_ASSERT(consumed <= bodyLen);
            std::advance(iter, static_cast<std::ptrdiff_t>(bodyLen - consumed));
            return es;
        }
        else {
            std::size_t count = MaxLen;
            if constexpr (McHasCount) {
                McCountF f;
                auto es = mcRd(f, iter, len);
                if (es != ErrorStatus::Success) { return es; }
                count = static_cast<std::size_t>(f.getValue());
            }
            if constexpr (McForceCount) { count = m_count; }
            if constexpr (McHasFixed) { count = McFixedSize; }
            if constexpr (McHasFixedElemLen) {
                McFixedElemLenF f;
                auto es = mcRd(f, iter, len);
                if (es != ErrorStatus::Success) { return es; }
                elemLen = static_cast<std::size_t>(f.getValue());
            }
            if constexpr (McHasTerm) {
                if constexpr (McView) {
                    auto it = iter;
                    std::size_t n = 0U;
                    while (true) {
                        McTermF f; auto t = it;
                        auto es = f.read(t, len);
                        if (es == ErrorStatus::NotEnoughData) { return es; }
                        if ((es == ErrorStatus::Success) && (f.getValue() == McTermF().getValue())) {
                            std::size_t l = n;
                            auto es2 = mcReadN(n, iter, l, elemLen);
                            iter = t;
                            return es2;
                        }
                        if (len == 0U) { return ErrorStatus::NotEnoughData; }
                        ++it; ++n; --len;
                    }
                }
                else {
                    while (true) {
                        McTermF f; auto t = iter;
                        auto es = f.read(t, len);
                        if ((es == ErrorStatus::Success) && (f.getValue() == McTermF().getValue())) { iter = t; return es; }
                        if (len == 0U) { return ErrorStatus::NotEnoughData; }
                        auto before = len;
                        es = mcReadElem(iter, len, elemLen);
                        if (es != ErrorStatus::Success) { return es; }
                        if (before == len) { return ErrorStatus::ProtocolError; }
                    }
                }
            }
            else {
                if (count == MaxLen) { return mcReadAll(iter, len, elemLen); }
                return mcReadN(count, iter, len, elemLen);
            }
        }
    }

    ValueType m_value;
    std::size_t m_count = MaxLen;
    std::size_t m_elemLen = MaxLen;
    VersionType m_ver = 0U;
};
}}
