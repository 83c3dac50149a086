#pragma once
#include "comms/details/base.h"
#include "comms/details/num.h"
#include "comms/field/OptionalMode.h"
#include "comms/Field.h"
namespace comms { namespace field {
namespace mc { struct NoVer { static constexpr std::uintmax_t from = 0U; static constexpr std::uintmax_t until = UINTMAX_MAX; }; }
template <typename TField, typename... TOptions>
class Optional : public TField::FieldBase, public details::VersionHolder<details::hasTag<option::def::mc::ExistsSinceVersionTag, details::Flatten<TOptions...> >() || details::hasOpt<option::def::VersionStorage, details::Flatten<TOptions...> >()>
{
    using McOpts = details::Flatten<TOptions...>;
    static constexpr bool McHasVer = details::hasTag<option::def::mc::ExistsSinceVersionTag, McOpts>();
    using McVer = details::Find<option::def::mc::ExistsSinceVersionTag, mc::NoVer, McOpts>;
    using McVerBase = details::VersionHolder<McHasVer || details::hasOpt<option::def::VersionStorage, McOpts>()>;
    static constexpr bool McHasFail = details::hasTag<option::def::mc::FailOnInvalidTag, McOpts>();
public:
    using FieldBase = typename TField::FieldBase;
    using Field = TField;
    using ValueType = TField;
    using Mode = OptionalMode;
    using VersionType = details::VersionType;
    using McUnits = details::NoUnits;
    Optional() = default;
    Field& field() { return m_field; }
    const Field& field() const { return m_field; }
    Field& value() { return m_field; }
    const Field& value() const { return m_field; }
    const Field& getValue() const { return m_field; }
    template <typename U> void setValue(U&& v) { m_field = std::forward<U>(v); }
    Mode getMode() const { return m_mode; }
    template <typename T> void setMode(T m) { m_mode = static_cast<Mode>(m); }
    bool isMissing() const { return m_mode == Mode::Missing; }
    bool isTentative() const { return m_mode == Mode::Tentative; }
    bool doesExist() const { return m_mode == Mode::Exists; }
    void setMissing() { m_mode = Mode::Missing; }
    void setTentative() { m_mode = Mode::Tentative; }
    void setExists() { m_mode = Mode::Exists; }
    static constexpr bool hasFixedValue() { return Field::hasFixedValue(); }
    static constexpr bool isVersionDependent() { return McHasVer || details::hasOpt<option::def::VersionStorage, McOpts>() || Field::isVersionDependent(); }
    static constexpr bool hasNonDefaultRefresh() { return details::hasOpt<option::def::HasCustomRefresh, McOpts>() || details::hasOpt<option::def::MissingOnInvalid, McOpts>() || Field::hasNonDefaultRefresh(); }
    static constexpr bool hasReadNoStatus() { return false; }
    static constexpr bool hasWriteNoStatus() { return false; }
    static constexpr std::size_t minLength() { return 0U; }
    static constexpr std::size_t maxLength() { return Field::maxLength(); }
    std::size_t length() const { return (m_mode == Mode::Exists) ? m_field.length() : 0U; }
    bool valid() const { return (m_mode == Mode::Missing) || m_field.valid(); }
    bool canWrite() const { return (m_mode == Mode::Missing) || m_field.canWrite(); }
    bool refresh()
    {
        if constexpr (details::hasOpt<option::def::MissingOnInvalid, McOpts>()) {
            if ((m_mode == Mode::Exists) && (!details::fullValid<McOpts>(this))) { m_mode = Mode::Missing; return true; }
        }
        return mcRefresh();
    }
    bool mcRefresh() { return (m_mode == Mode::Exists) ? m_field.refresh() : false; }
    bool setVersion(VersionType v)
    {
        bool r = McVerBase::mcSetVersion(v);
        if constexpr (Field::isVersionDependent()) { bool f = m_field.setVersion(v); r = r || f; }
        if constexpr (McHasVer) {
            auto m = ((McVer::from <= v) && (v <= McVer::until)) ? mcExistsMode() : Mode::Missing;
            if (m != m_mode) { m_mode = m; r = true; }
        }
        return r;
    }
    template <typename TIter> ErrorStatus read(TIter& iter, std::size_t len)
    {
        if (m_mode == Mode::Missing) { return ErrorStatus::Success; }
        if ((m_mode == Mode::Tentative) && (len == 0U)) { m_mode = Mode::Missing; return ErrorStatus::Success; }
        auto from = iter;
        auto es = m_field.read(iter, len);
        if constexpr (details::hasOpt<option::def::MissingOnReadFail, McOpts>()) {
            if (es != ErrorStatus::Success) { m_mode = Mode::Missing; iter = from; return ErrorStatus::Success; }
        }
        if constexpr (details::hasOpt<option::def::MissingOnInvalid, McOpts>()) {
            m_mode = Mode::Exists;
            if ((es == ErrorStatus::Success) && (!details::fullValid<McOpts>(this))) { m_mode = Mode::Missing; iter = from; return ErrorStatus::Success; }
        }
        static_cast<void>(from);
        if (es != ErrorStatus::Success) { return es; }
        m_mode = Mode::Exists;
        if constexpr (McHasFail) {
            if (!details::fullValid<McOpts>(this)) { return details::Find<option::def::mc::FailOnInvalidTag, details::NoFail, McOpts>::value; }
        }
        return es;
    }
    template <typename TIter> ErrorStatus write(TIter& iter, std::size_t len) const
    {
        if (m_mode == Mode::Missing) { return ErrorStatus::Success; }
        if ((m_mode == Mode::Tentative) && (len == 0U)) { return ErrorStatus::Success; }
        return m_field.write(iter, len);
    }
private:
    static constexpr Mode mcExistsMode() { return Mode::Exists; }
    static constexpr Mode mcDefMode()
    {
        return details::hasOpt<option::def::MissingByDefault, McOpts>() ? Mode::Missing :
            (details::hasOpt<option::def::ExistsByDefault, McOpts>() ? Mode::Exists : Mode::Tentative);
    }
    Field m_field;
    Mode m_mode = mcDefMode();
};
template <typename F, typename... O>
bool operator==(const Optional<F, O...>& a, const Optional<F, O...>& b)
{ return (a.getMode() == b.getMode()) && (a.isMissing() || (a.field() == b.field())); }
template <typename F, typename... O>
bool operator!=(const Optional<F, O...>& a, const Optional<F, O...>& b) { return !(a == b); }
template <typename F, typename... O>
bool operator<(const Optional<F, O...>& a, const Optional<F, O...>& b)
{ return (a.getMode() != b.getMode()) ? (a.getMode() < b.getMode()) : ((!a.isMissing()) && (a.field() < b.field())); }
}}
