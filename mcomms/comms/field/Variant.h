#pragma once
#include <new>
#include "comms/details/base.h"
#include "comms/details/num.h"
#include "comms/details/foreach.h"
#include "comms/Field.h"
namespace comms { namespace field {
namespace mc {
template <typename T> struct VarInfo;
template <typename... T> struct VarInfo<std::tuple<T...> >
{
    static constexpr std::size_t maxOfAll() { return 0U; }
    template <typename... R> static constexpr std::size_t maxOfAll(std::size_t a, R... r) { return details::maxOf(a, maxOfAll(r...)); }
    static constexpr std::size_t size = maxOfAll(sizeof(T)...);
    static constexpr std::size_t align = maxOfAll(alignof(T)...);
    static constexpr std::size_t maxLen = maxOfAll(T::maxLength()...);
};
}
namespace mc {
struct VLen { std::size_t r = 0U; template <typename F> void operator()(const F& f) { r = f.length(); } };
struct VValid { bool r = false; template <typename F> void operator()(const F& f) { r = f.valid(); } };
struct VCan { bool r = true; template <typename F> void operator()(const F& f) { r = f.canWrite(); } };
struct VRef { bool r = false; template <typename F> void operator()(F& f) { r = f.refresh(); } };
struct VVer { details::VersionType v; bool r; explicit VVer(details::VersionType x) : v(x), r(false) {} template <typename F> void operator()(F& f) { r = f.setVersion(v); } };
template <typename TIter> struct VWr { TIter& iter; std::size_t len; ErrorStatus r; VWr(TIter& i, std::size_t l) : iter(i), len(l), r(ErrorStatus::Success) {} template <typename F> void operator()(const F& f) { r = f.write(iter, len); } };
}
template <typename TFieldBase, typename TMembers, typename... TOptions>
class Variant : public TFieldBase, public details::VersionHolder<details::hasOpt<option::def::VersionStorage, details::Flatten<TOptions...> >() || details::TupleInfo<TMembers>::anyVersionDependent()>
{
    using McOpts = details::Flatten<TOptions...>;
    using McInfo = mc::VarInfo<TMembers>;
    using McVerBase = details::VersionHolder<details::hasOpt<option::def::VersionStorage, McOpts>() || details::TupleInfo<TMembers>::anyVersionDependent()>;
    struct mcVer { static constexpr bool value = details::TupleInfo<TMembers>::anyVersionDependent(); };
    static constexpr bool McHasFail = details::hasTag<option::def::mc::FailOnInvalidTag, McOpts>();
    static constexpr bool McCustomReset = details::hasOpt<option::def::VariantHasCustomResetOnDestruct, McOpts>();
public:
    using FieldBase = TFieldBase;
    using Members = TMembers;
    using ValueType = Variant;
    using VersionType = details::VersionType;
    using McUnits = details::NoUnits;
    using Endian = typename TFieldBase::Endian;
    static constexpr std::size_t totalFields() { return std::tuple_size<Members>::value; }
    Variant() = default;
    Variant(const Variant& o) : McVerBase(o) { if constexpr (!McCustomReset) { mcCopy(o); } }
    ~Variant() { if constexpr (!McCustomReset) { reset(); } else { COMMS_ASSERT(!currentFieldValid()); } }
    Variant& operator=(const Variant& o) { if (this != &o) { reset(); mcCopy(o); } return *this; }

    ValueType& value() { return *this; }
    const ValueType& value() const { return *this; }
    const ValueType& getValue() const { return *this; }

    std::size_t currentField() const { return m_idx; }
    bool currentFieldValid() const { return m_idx < totalFields(); }

    template <std::size_t TIdx, typename... A> typename std::tuple_element<TIdx, Members>::type& initField(A&&... a)
    {
        using F = typename std::tuple_element<TIdx, Members>::type;
        COMMS_ASSERT(!currentFieldValid());
        auto* p = new (&m_storage) F(std::forward<A>(a)...);
        m_idx = TIdx;
        if constexpr (isVersionDependent() && F::isVersionDependent()) { p->setVersion(m_ver); }
        return *p;
    }
    template <std::size_t TIdx> void deinitField()
    {
        using F = typename std::tuple_element<TIdx, Members>::type;
        COMMS_ASSERT(m_idx == TIdx);
        reinterpret_cast<F*>(&m_storage)->~F();
        m_idx = totalFields();
    }
    template <std::size_t TIdx> typename std::tuple_element<TIdx, Members>::type& accessField()
    { COMMS_ASSERT(m_idx == TIdx); return *reinterpret_cast<typename std::tuple_element<TIdx, Members>::type*>(&m_storage); }
    template <std::size_t TIdx> const typename std::tuple_element<TIdx, Members>::type& accessField() const
    { COMMS_ASSERT(m_idx == TIdx); return *reinterpret_cast<const typename std::tuple_element<TIdx, Members>::type*>(&m_storage); }

    template <typename TFunc> void currentFieldExec(TFunc&& f) { mcExec<0U>(*this, f); }
    template <typename TFunc> void currentFieldExec(TFunc&& f) const { mcExec<0U>(*this, f); }
    template <typename TFunc> void currFieldExec(TFunc&& f) { mcExec<0U>(*this, f); }
    template <typename TFunc> void currFieldExec(TFunc&& f) const { mcExec<0U>(*this, f); }
    void selectField(std::size_t idx) { if (m_idx == idx) { return; } reset(); mcInit<0U>(idx); }
    void reset() { if (currentFieldValid()) { mcDestroy<0U>(); } }

    static constexpr bool hasFixedValue() { return false; }
    static constexpr bool isVersionDependent() { return details::Find<option::def::mc::HasVersionDependentMembersTag, mcVer, McOpts>::value; }
    static constexpr bool hasNonDefaultRefresh() { return details::hasOpt<option::def::HasCustomRefresh, McOpts>() || details::TupleInfo<TMembers>::anyRefresh(); }
    static constexpr bool hasReadNoStatus() { return false; }
    static constexpr bool hasWriteNoStatus() { return false; }
    static constexpr std::size_t minLength() { return 0U; }
    static constexpr std::size_t maxLength() { return McInfo::maxLen; }
    std::size_t length() const { mc::VLen v; mcVisit<0U>(*this, v); return v.r; }
    bool valid() const { mc::VValid v; mcVisit<0U>(*this, v); return v.r; }
    bool canWrite() const { mc::VCan v; mcVisit<0U>(*this, v); return v.r; }
    bool refresh() { mc::VRef v; mcVisit<0U>(*this, v); return v.r; }
    bool setVersion(VersionType v)
    {
        bool r = McVerBase::mcSetVersion(v);
        if constexpr (isVersionDependent()) { m_ver = v; mc::VVer vis{v}; mcVisit<0U>(*this, vis); r = r || vis.r; }
        return r;
    }
    template <typename TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        reset();
        auto es = mcReadFrom<0U>(iter, len);
        if constexpr (McHasFail) { if ((es == ErrorStatus::Success) && (!details::fullValid<McOpts>(this))) { return details::Find<option::def::mc::FailOnInvalidTag, details::NoFail, McOpts>::value; } }
        return es;
    }
    template <typename TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    { mc::VWr<TIter> v{iter, len}; mcVisit<0U>(*this, v); return v.r; }
private:
    template <std::size_t I, typename S, typename F> static void mcVisit(S& self, F&& f)
    {
        if constexpr (I < std::tuple_size<TMembers>::value) {
            if (self.m_idx == I) { f(self.template accessField<I>()); return; }
            mcVisit<I + 1U>(self, f);
        }
    }
    template <std::size_t I, typename S, typename F> static void mcExec(S& self, F& f)
    {
        if constexpr (I < std::tuple_size<TMembers>::value) {
            if (self.m_idx == I) { f.template operator()<I>(self.template accessField<I>()); return; }
            mcExec<I + 1U>(self, f);
        }
    }
    template <std::size_t I> void mcInit(std::size_t idx)
    { if constexpr (I < std::tuple_size<TMembers>::value) { if (I == idx) { initField<I>(); return; } mcInit<I + 1U>(idx); } }
    template <std::size_t I> void mcDestroy()
    { if constexpr (I < std::tuple_size<TMembers>::value) { if (I == m_idx) { deinitField<I>(); return; } mcDestroy<I + 1U>(); } }
    void mcCopy(const Variant& o) { m_ver = o.m_ver; mcCopyFrom<0U>(o); }
    template <std::size_t I> void mcCopyFrom(const Variant& o)
    { if constexpr (I < std::tuple_size<TMembers>::value) { if (I == o.m_idx) { initField<I>(o.template accessField<I>()); return; } mcCopyFrom<I + 1U>(o); } }
    template <std::size_t I, typename TIter> ErrorStatus mcReadFrom(TIter& iter, std::size_t len)
    {
        if constexpr (I < std::tuple_size<TMembers>::value) {
            auto from = iter;
            auto& f = initField<I>();
            auto es = f.read(iter, len);
            if (es == ErrorStatus::Success) { return es; }
            deinitField<I>();
            iter = from;
            return mcReadFrom<I + 1U>(iter, len);
        }
        else { static_cast<void>(iter); static_cast<void>(len); return ErrorStatus::InvalidMsgData; }
    }
    typename std::aligned_storage<McInfo::size, McInfo::align>::type m_storage;
    std::size_t m_idx = std::tuple_size<TMembers>::value;
    VersionType m_ver = 0U;
};
namespace mc {
template <typename B, typename M, typename... O> std::true_type isVariantImpl(const Variant<B, M, O...>*);
std::false_type isVariantImpl(...);
}
template <typename T> constexpr bool isVariant() { return decltype(mc::isVariantImpl(static_cast<T*>(nullptr)))::value; }
}}
#define MC_VAR_ENTRY(x_) FieldIdx_ ## x_,
#define MC_VAR_ACC(x_) \
    using Field_ ## x_ = typename std::tuple_element<FieldIdx_ ## x_, typename Base::Members>::type; \
    template <typename... TArgs> Field_ ## x_& initField_ ## x_ (TArgs&&... args) { return this->template initField<FieldIdx_ ## x_>(std::forward<TArgs>(args)...); } \
    void deinitField_ ## x_ () { this->template deinitField<FieldIdx_ ## x_>(); } \
    Field_ ## x_& accessField_ ## x_ () { return this->template accessField<FieldIdx_ ## x_>(); } \
    const Field_ ## x_& accessField_ ## x_ () const { return this->template accessField<FieldIdx_ ## x_>(); }
#define COMMS_VARIANT_MEMBERS_NAMES(...) \
    enum FieldIdx : unsigned { MC_FOR_EACH(MC_VAR_ENTRY, __VA_ARGS__) FieldIdx_numOfValues }; \
    static_assert(static_cast<std::size_t>(FieldIdx_numOfValues) == std::tuple_size<typename Base::Members>::value, "wrong number of member names"); \
    MC_FOR_EACH(MC_VAR_ACC, __VA_ARGS__)
#define COMMS_VARIANT_MEMBERS_NAMES_NOTEMPLATE(...) COMMS_VARIANT_MEMBERS_NAMES(__VA_ARGS__)
