// Parses batches of schemas with the public parse API of libcommsdsl and prints everything it reports as JSON.
// stdin: one case per line: <flags>TAB<extra prefixes, comma separated>TAB<file>TAB<file>...   flags: m = multiple schemas enabled
// stdout: one JSON object per case.
#include <cmath>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "commsdsl/parse/ParseProtocol.h"
#include "commsdsl/parse/ParseIntField.h"
#include "commsdsl/parse/ParseEnumField.h"
#include "commsdsl/parse/ParseSetField.h"
#include "commsdsl/parse/ParseFloatField.h"
#include "commsdsl/parse/ParseStringField.h"
#include "commsdsl/parse/ParseDataField.h"
#include "commsdsl/parse/ParseListField.h"
#include "commsdsl/parse/ParseBitfieldField.h"
#include "commsdsl/parse/ParseBundleField.h"
#include "commsdsl/parse/ParseVariantField.h"
#include "commsdsl/parse/ParseOptionalField.h"
#include "commsdsl/parse/ParseRefField.h"
#include "commsdsl/parse/ParseOptCond.h"
#include "commsdsl/parse/ParseLayer.h"
using namespace commsdsl::parse;
static std::string out;
static void str(const std::string& s)
{
    out += '"';
    for (unsigned char c : s) {
        if ((c == '"') || (c == '\\')) { out += '\\'; out += static_cast<char>(c); }
        else if ((c < 0x20) || (c == 0x7f)) { char b[8]; std::snprintf(b, sizeof(b), "\\u%04x", c); out += b; }
        else { out += static_cast<char>(c); }
    }
    out += '"';
}
static void key(const char* k) { if ((out.back() != '{') && (out.back() != '[')) { out += ','; } str(k); out += ':'; }
static void kv(const char* k, const std::string& v) { key(k); str(v); }
static void kv(const char* k, const char* v) { key(k); str(v); }
static void kv(const char* k, bool v) { key(k); out += v ? "true" : "false"; }
template <typename T, typename = typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
static void kv(const char* k, T v) { key(k); out += std::to_string(v); }
static void num(double v) { char b[64]; if (std::isnan(v)) { out += "\"nan\""; } else if (std::isinf(v)) { out += v > 0 ? "\"inf\"" : "\"-inf\""; } else { std::snprintf(b, sizeof(b), "\"%.17g\"", v); out += b; } }
static void kvd(const char* k, double v) { key(k); num(v); }
template <typename TEnum> static void kve(const char* k, TEnum v) { kv(k, static_cast<long long>(v)); }
static void sep() { if ((out.back() != '{') && (out.back() != '[')) { out += ','; } }
template <typename T> static void extras(const T& o)
{
    key("xattr"); out += '['; for (auto& a : o.parseExtraAttributes()) { sep(); out += '['; str(a.first); out += ','; str(a.second); out += ']'; } out += ']';
    key("xelem"); out += '['; for (auto& e : o.parseExtraElements()) { sep(); str(e); } out += ']';
}
static void field(const ParseField& f);
static void optField(const char* k, const ParseField& f) { key(k); if (f.parseValid()) { field(f); } else { out += "null"; } }
static void cond(const ParseOptCond& c)
{
    if (!c.parseValid()) { out += "null"; return; }
    if (c.parseKind() == ParseOptCond::ParseKind::Expr) {
        ParseOptCondExpr e(c);
        auto l = e.parseLeftInfo(); auto r = e.parseRightInfo();
        out += '['; str(e.parseLeft()); out += ','; str(e.parseOp()); out += ','; str(e.parseRight());
        for (auto* i : {&l, &r}) { out += ",["; out += std::to_string(static_cast<int>(i->m_type)); out += ','; out += std::to_string(static_cast<int>(i->m_mode)); out += ','; str(i->m_access); out += ']'; }
        out += ']';
        return;
    }
    ParseOptCondList l(c);
    out += l.parseType() == ParseOptCondList::ParseType::And ? "{\"and\":[" : "{\"or\":[";
    for (auto& e : l.parseConditions()) { sep(); cond(e); }
    out += "]}";
}
static void alias(const ParseAlias& a) { sep(); out += '{'; kv("name", a.parseName()); kv("desc", a.parseDescription()); kv("field", a.parseFieldName()); extras(a); out += '}'; }
template <typename T> static void fields(const char* k, const T& l) { key(k); out += '['; for (auto& m : l) { sep(); field(m); } out += ']'; }
template <typename T> static void ranges(const T& l) { key("ranges"); out += '['; for (auto& r : l) { sep(); out += '['; out += std::to_string(r.m_min) + "," + std::to_string(r.m_max) + "," + std::to_string(r.m_sinceVersion) + "," + std::to_string(r.m_deprecatedSince) + "]"; } out += ']'; }
static void franges(const ParseFloatField::ParseValidRangesList& l) { key("ranges"); out += '['; for (auto& r : l) { sep(); out += '['; num(r.m_min); out += ','; num(r.m_max); out += "," + std::to_string(r.m_sinceVersion) + "," + std::to_string(r.m_deprecatedSince) + "]"; } out += ']'; }
static void hex(const std::vector<std::uint8_t>& d) { out += '"'; for (auto b : d) { char t[4]; std::snprintf(t, sizeof(t), "%02x", b); out += t; } out += '"'; }
static void field(const ParseField& f)
{
    static const char* Kinds[] = {"int", "enum", "set", "float", "bitfield", "bundle", "string", "data", "list", "ref", "optional", "variant"};
    out += '{';
    kv("kind", Kinds[static_cast<unsigned>(f.parseKind())]);
    kv("name", f.parseName()); kv("dname", f.parseDisplayName()); kv("desc", f.parseDescription());
    kve("sem", f.parseSemanticType()); kv("minlen", f.parseMinLength()); kv("maxlen", f.parseMaxLength()); kv("bitlen", f.parseBitLength());
    kv("since", f.parseSinceVersion()); kv("depr", f.parseDeprecatedSince()); kv("removed", f.parseIsDeprecatedRemoved());
    kv("ext", f.parseExternalRef()); kv("ext0", f.parseExternalRef(false)); kv("pseudo", f.parseIsPseudo()); kv("fixed", f.parseIsFixedValue()); kv("custom", f.parseIsCustomizable());
    kv("fail", f.parseIsFailOnInvalid()); kv("force", f.parseIsForceGen());
    kve("ov_value", f.parseValueOverride()); kve("ov_read", f.parseReadOverride()); kve("ov_write", f.parseWriteOverride()); kve("ov_refresh", f.parseRefreshOverride());
    kve("ov_length", f.parseLengthOverride()); kve("ov_valid", f.parseValidOverride()); kve("ov_name", f.parseNameOverride()); kv("copycode", f.parseCopyCodeFrom());
    extras(f);
    switch (f.parseKind()) {
        case ParseField::ParseKind::Int: {
            ParseIntField i(f);
            kve("type", i.parseType()); kve("endian", i.parseEndian()); kv("offset", i.parseSerOffset()); kv("min", i.parseMinValue()); kv("max", i.parseMaxValue()); kv("def", i.parseDefaultValue());
            kv("sc_num", i.parseScaling().first); kv("sc_den", i.parseScaling().second); ranges(i.parseValidRanges());
            key("specials"); out += '[';
            for (auto& s : i.parseSpecialValues()) { sep(); out += '['; str(s.first); out += "," + std::to_string(s.second.m_value) + "," + std::to_string(s.second.m_sinceVersion) + "," + std::to_string(s.second.m_deprecatedSince) + ","; str(s.second.m_description); out += ','; str(s.second.m_displayName); out += ']'; }
            out += ']';
            kve("units", i.parseUnits()); kv("vcv", i.parseValidCheckVersion()); kv("decimals", i.parseDisplayDecimals()); kv("doffset", i.parseDisplayOffset()); kv("signext", i.parseSignExt()); kv("avail", i.parseAvailableLengthLimit());
            break;
        }
        case ParseField::ParseKind::Enum: {
            ParseEnumField e(f);
            kve("type", e.parseType()); kve("endian", e.parseEndian()); kv("def", e.parseDefaultValue());
            key("values"); out += '[';
            for (auto& s : e.parseValues()) { sep(); out += '['; str(s.first); out += "," + std::to_string(s.second.m_value) + "," + std::to_string(s.second.m_sinceVersion) + "," + std::to_string(s.second.m_deprecatedSince) + ","; str(s.second.m_description); out += ','; str(s.second.m_displayName); out += ']'; }
            out += ']';
            key("rev"); out += '['; for (auto& r : e.parseRevValues()) { sep(); out += "[" + std::to_string(r.first) + ","; str(r.second); out += ']'; } out += ']';
            kv("nonuniq", e.parseIsNonUniqueAllowed()); kv("uniq", e.parseIsUnique()); kv("vcv", e.parseValidCheckVersion()); kv("hex", e.parseHexAssign()); kv("avail", e.parseAvailableLengthLimit());
            break;
        }
        case ParseField::ParseKind::Set: {
            ParseSetField e(f);
            kve("type", e.parseType()); kve("endian", e.parseEndian()); kv("defbit", e.parseDefaultBitValue()); kv("resbit", e.parseReservedBitValue());
            key("bits"); out += '[';
            for (auto& s : e.parseBits()) { auto& b = s.second; sep(); out += '['; str(s.first); out += "," + std::to_string(b.m_idx) + "," + std::to_string(b.m_sinceVersion) + "," + std::to_string(b.m_deprecatedSince) + ","; str(b.m_description); out += ','; str(b.m_displayName); out += b.m_defaultValue ? ",true" : ",false"; out += b.m_reserved ? ",true" : ",false"; out += b.m_reservedValue ? ",true" : ",false"; out += ']'; }
            out += ']';
            key("rev"); out += '['; for (auto& r : e.parseRevBits()) { sep(); out += "[" + std::to_string(r.first) + ","; str(r.second); out += ']'; } out += ']';
            kv("nonuniq", e.parseIsNonUniqueAllowed()); kv("uniq", e.parseIsUnique()); kv("vcv", e.parseValidCheckVersion()); kv("avail", e.parseAvailableLengthLimit());
            break;
        }
        case ParseField::ParseKind::Float: {
            ParseFloatField i(f);
            kve("type", i.parseType()); kve("endian", i.parseEndian()); kvd("def", i.parseDefaultValue()); franges(i.parseValidRanges());
            key("specials"); out += '[';
            for (auto& s : i.parseSpecialValues()) { sep(); out += '['; str(s.first); out += ","; num(s.second.m_value); out += "," + std::to_string(s.second.m_sinceVersion) + "," + std::to_string(s.second.m_deprecatedSince) + ","; str(s.second.m_description); out += ','; str(s.second.m_displayName); out += ']'; }
            out += ']';
            kve("units", i.parseUnits()); kv("vcv", i.parseValidCheckVersion()); kv("decimals", i.parseDisplayDecimals()); kv("nonuniq", i.parseHasNonUniqueSpecials());
            break;
        }
        case ParseField::ParseKind::Bitfield: { ParseBitfieldField b(f); kve("endian", b.parseEndian()); fields("members", b.parseMembers()); key("validcond"); cond(b.parseValidCond()); break; }
        case ParseField::ParseKind::Bundle: {
            ParseBundleField b(f); fields("members", b.parseMembers());
            key("aliases"); out += '['; for (auto& a : b.parseAliases()) { alias(a); } out += ']';
            key("validcond"); cond(b.parseValidCond());
            break;
        }
        case ParseField::ParseKind::String: {
            ParseStringField s(f);
            kv("def", s.parseDefaultValue()); kv("enc", s.parseEncodingStr()); kv("fixedlen", s.parseFixedLength()); kv("haslp", s.parseHasLengthPrefixField());
            if (s.parseHasLengthPrefixField()) { optField("lp", s.parseLengthPrefixField()); }
            kv("zero", s.parseHasZeroTermSuffix()); kv("detached", s.parseDetachedPrefixFieldName());
            key("vv"); out += '['; for (auto& v : s.parseValidValues()) { sep(); out += '['; str(v.m_value); out += "," + std::to_string(v.m_sinceVersion) + "," + std::to_string(v.m_deprecatedSince) + "]"; } out += ']';
            break;
        }
        case ParseField::ParseKind::Data: {
            ParseDataField s(f);
            key("def"); hex(s.parseDefaultValue()); kv("fixedlen", s.parseFixedLength()); kv("haslp", s.parseHasLengthPrefixField());
            if (s.parseHasLengthPrefixField()) { optField("lp", s.parseLengthPrefixField()); }
            kv("detached", s.parseDetachedPrefixFieldName());
            key("vv"); out += '['; for (auto& v : s.parseValidValues()) { sep(); out += '['; hex(v.m_value); out += "," + std::to_string(v.m_sinceVersion) + "," + std::to_string(v.m_deprecatedSince) + "]"; } out += ']';
            break;
        }
        case ParseField::ParseKind::List: {
            ParseListField l(f);
            optField("elem", l.parseElementField()); kv("count", l.parseFixedCount());
            kv("hascp", l.parseHasCountPrefixField()); if (l.parseHasCountPrefixField()) { optField("cp", l.parseCountPrefixField()); } kv("dcp", l.parseDetachedCountPrefixFieldName());
            kv("haslp", l.parseHasLengthPrefixField()); if (l.parseHasLengthPrefixField()) { optField("lp", l.parseLengthPrefixField()); } kv("dlp", l.parseDetachedLengthPrefixFieldName());
            kv("hasep", l.parseHasElemLengthPrefixField()); if (l.parseHasElemLengthPrefixField()) { optField("ep", l.parseElemLengthPrefixField()); } kv("dep", l.parseDetachedElemLengthPrefixFieldName());
            kv("epfixed", l.parseElemFixedLength());
            kv("hasts", l.parseHasTermSuffixField()); if (l.parseHasTermSuffixField()) { optField("ts", l.parseTermSuffixField()); } kv("dts", l.parseDetachedTermSuffixFieldName());
            break;
        }
        case ParseField::ParseKind::Ref: { ParseRefField r(f); optField("ref", r.parseField()); break; }
        case ParseField::ParseKind::Optional: {
            ParseOptionalField o(f); kve("mode", o.parseDefaultMode()); optField("field", o.parseField()); key("cond"); cond(o.parseCond()); kv("mrf", o.parseMissingOnReadFail()); kv("moi", o.parseMissingOnInvalid());
            break;
        }
        case ParseField::ParseKind::Variant: { ParseVariantField v(f); fields("members", v.parseMembers()); kv("defidx", v.parseDefaultMemberIdx()); break; }
        default: break;
    }
    out += '}';
}
static void message(const ParseMessage& m)
{
    sep(); out += '{';
    kv("name", m.parseName()); kv("dname", m.parseDisplayName()); kv("desc", m.parseDescription()); kv("id", m.parseId()); kv("order", m.parseOrder()); kv("minlen", m.parseMinLength()); kv("maxlen", m.parseMaxLength());
    kv("since", m.parseSinceVersion()); kv("depr", m.parseDeprecatedSince()); kv("removed", m.parseIsDeprecatedRemoved()); kv("ext", m.parseExternalRef()); kv("ext0", m.parseExternalRef(false));
    kv("custom", m.parseIsCustomizable()); kv("fail", m.parseIsFailOnInvalid()); kve("sender", m.parseSender());
    kve("ov_read", m.parseReadOverride()); kve("ov_write", m.parseWriteOverride()); kve("ov_refresh", m.parseRefreshOverride()); kve("ov_length", m.parseLengthOverride()); kve("ov_valid", m.parseValidOverride()); kve("ov_name", m.parseNameOverride());
    kv("copycode", m.parseCopyCodeFrom());
    key("construct"); cond(m.parseConstruct()); key("readcond"); cond(m.parseReadCond()); key("validcond"); cond(m.parseValidCond());
    extras(m);
    key("platforms"); out += '['; for (auto& p : m.parsePlatforms()) { sep(); str(p); } out += ']';
    fields("fields", m.parseFields());
    key("aliases"); out += '['; for (auto& a : m.parseAliases()) { alias(a); } out += ']';
    out += '}';
}
static void interface(const ParseInterface& i)
{
    sep(); out += '{'; kv("name", i.parseName()); kv("desc", i.parseDescription()); kv("ext", i.parseExternalRef()); kv("ext0", i.parseExternalRef(false)); kv("copycode", i.parseCopyCodeFrom()); extras(i);
    fields("fields", i.parseFields());
    key("aliases"); out += '['; for (auto& a : i.parseAliases()) { alias(a); } out += ']';
    out += '}';
}
static void frame(const ParseFrame& fr)
{
    static const char* Kinds[] = {"custom", "sync", "size", "id", "value", "payload", "checksum"};
    sep(); out += '{'; kv("name", fr.parseName()); kv("dname", fr.parseDisplayName()); kv("desc", fr.parseDescription()); kv("ext", fr.parseExternalRef()); kv("ext0", fr.parseExternalRef(false)); extras(fr);
    key("layers"); out += '[';
    for (auto& l : fr.parseLayers()) {
        sep(); out += '{'; kv("kind", Kinds[static_cast<unsigned>(l.parseKind())]); kv("name", l.parseName()); kv("dname", l.parseDisplayName()); kv("desc", l.parseDescription()); extras(l);
        kv("hasfield", l.parseHasField()); if (l.parseHasField()) { optField("field", l.parseField()); }
        switch (l.parseKind()) {
            case ParseLayer::ParseKind::Custom: { ParseCustomLayer c(l); kv("semtype", Kinds[static_cast<unsigned>(c.parseSemanticLayerType())]); kv("from", c.parseChecksumFromLayer()); kv("until", c.parseChecksumUntilLayer()); break; }
            case ParseLayer::ParseKind::Sync: { ParseSyncLayer s(l); kv("seek", s.parseSeekField()); kv("hasesc", s.parseHasEscField()); if (s.parseHasEscField()) { optField("esc", s.parseEscField()); } kv("from", s.parseFromLayer()); kv("verify", s.parseVerifyBeforeRead()); kv("after", s.parseIsAfterPayload()); break; }
            case ParseLayer::ParseKind::Checksum: { ParseChecksumLayer c(l); kve("alg", c.parseAlg()); kv("algname", c.parseCustomAlgName()); kv("from", c.parseFromLayer()); kv("until", c.parseUntilLayer()); kv("verify", c.parseVerifyBeforeRead()); break; }
            case ParseLayer::ParseKind::Value: { ParseValueLayer v(l); key("interfaces"); out += '['; for (auto& i : v.parseInterfaces()) { sep(); str(i.parseExternalRef()); } out += ']'; kv("fieldname", v.parseFieldName()); kv("fieldidx", v.parseFieldIdx()); kv("vpseudo", v.parsePseudo()); break; }
            default: break;
        }
        out += '}';
    }
    out += "]}";
}
static void ns(const ParseNamespace& n)
{
    sep(); out += '{'; kv("name", n.parseName()); kv("dname", n.parseDisplayName()); kv("desc", n.parseDescription()); kv("ext", n.parseExternalRef()); kv("ext0", n.parseExternalRef(false)); kv("hasmsgs", n.parseHasMessages()); extras(n);
    key("namespaces"); out += '['; for (auto& c : n.parseNamespaces()) { ns(c); } out += ']';
    fields("fields", n.parseFields());
    key("messages"); out += '['; for (auto& m : n.parseMessages()) { message(m); } out += ']';
    key("interfaces"); out += '['; for (auto& i : n.parseInterfaces()) { interface(i); } out += ']';
    key("frames"); out += '['; for (auto& f : n.parseFrames()) { frame(f); } out += ']';
    out += '}';
}
int main()
{
    std::string line;
    while (std::getline(std::cin, line)) {
        std::vector<std::string> toks;
        for (std::size_t p = 0;;) { auto e = line.find('\t', p); toks.push_back(line.substr(p, e == std::string::npos ? e : e - p)); if (e == std::string::npos) { break; } p = e + 1; }
        out = "{";
        std::vector<std::pair<int, std::string>> log;
        {
            ParseProtocol p;
            p.parseSetErrorReportCallback([&](ParseErrorLevel l, const std::string& m) { log.emplace_back(static_cast<int>(l), m); });
            p.parseSetMultipleSchemasEnabled(toks[0].find('m') != std::string::npos);
            if ((1U < toks.size()) && !toks[1].empty()) { std::istringstream s(toks[1]); std::string t; while (std::getline(s, t, ',')) { p.parseAddExpectedExtraPrefix(t); } }
            bool ok = true;
            for (std::size_t i = 2; ok && (i < toks.size()); ++i) { ok = p.parse(toks[i]); }
            bool parsed = ok;
            ok = ok && p.parseValidate();
            kv("ok", ok); kv("parsed", parsed);
            if (ok && (toks[0].find('q') == std::string::npos)) {
                key("schemas"); out += '[';
                for (auto& s : p.parseSchemas()) {
                    sep(); out += '{';
                    kv("name", s.parseName()); kv("dname", s.parseDisplayName()); kv("desc", s.parseDescription()); kv("id", s.parseId()); kv("version", s.parseVersion()); kv("dsl", s.parseDslVersion()); kve("endian", s.parseEndian());
                    kv("nonuniqid", s.parseNonUniqueMsgIdAllowed()); kv("ext", s.parseExternalRef()); extras(s);
                    key("platforms"); out += '['; for (auto& pl : s.parsePlatforms()) { sep(); str(pl); } out += ']';
                    key("allmsgs"); out += '['; for (auto& m : s.parseAllMessages()) { sep(); str(m.parseExternalRef()); } out += ']';
                    key("namespaces"); out += '['; for (auto& n : s.parseNamespaces()) { ns(n); } out += ']';
                    out += '}';
                }
                out += ']';
            }
        }
        key("log"); out += '['; for (auto& l : log) { sep(); out += "[" + std::to_string(l.first) + ","; str(l.second); out += ']'; } out += "]}";
        out += '\n';
        std::fwrite(out.data(), 1, out.size(), stdout);
        std::fflush(stdout);
    }
    return 0;
}
