"""Do the options structures reach what they claim to customise? Every leaf of the generated DefaultOptions is replaced with its own marker
and the class at the same path has to have that marker among its options."""
import re

PRE = r'''
#include <tuple>
#include <type_traits>
#include "comms/comms.h"
%s
namespace cm
{
template <int N> struct Mark { struct Tag {}; using mcTag = Tag; };
template <typename...> struct Pack {};
template <typename M, typename... T> struct In;
template <typename M> struct In<M> { static constexpr bool value = false; };
template <typename M, typename... R> struct In<M, M, R...> { static constexpr bool value = true; };
template <typename M, typename... X, typename... R> struct In<M, std::tuple<X...>, R...> { static constexpr bool value = In<M, X...>::value || In<M, R...>::value; };
template <typename M, typename T, typename... R> struct In<M, T, R...> { static constexpr bool value = In<M, R...>::value; };
template <typename M, typename P> struct InPack;
template <typename M, typename... T> struct InPack<M, Pack<T...> > : In<M, T...> {};
%s
template <typename C, typename M> constexpr bool has() { return InPack<M, decltype(probe(static_cast<C*>(nullptr)))>::value; }
template <typename... T> std::integral_constant<int, 1> kind(const comms::field::String<T...>*);
template <typename B, typename E, typename... T> std::integral_constant<int, std::is_integral<E>::value ? 2 : 3> kind(const comms::field::ArrayList<B, E, T...>*);
std::integral_constant<int, 0> kind(...);
template <typename C> constexpr int seq() { return decltype(kind(static_cast<C*>(nullptr)))::value; }
}
''' % ("\n".join('#include "comms/frame/%s.h"' % l for l in ("ChecksumLayer", "ChecksumPrefixLayer", "MsgIdLayer", "MsgSizeLayer", "SyncPrefixLayer", "SyncSuffixLayer")), "\n".join("template <typename... T> Pack<T...> probe(const %s<T...>*);" % x for x in
    ["comms::field::%s" % f for f in ("ArrayList", "Bitfield", "BitmaskValue", "Bundle", "EnumValue", "FloatValue", "IntValue", "Optional", "String", "Variant")] +
    ["comms::MessageBase"] + ["comms::frame::%s" % l for l in ("ChecksumLayer", "ChecksumPrefixLayer", "MsgIdLayer", "MsgSizeLayer", "SyncPrefixLayer", "SyncSuffixLayer")]))


def strip(text):
    return re.sub(r"//[^\n]*", "", text)


def leaves(text):
    """(position of the value, its end, path) of all the aliases in the struct of the options"""
    t = re.sub(r"//[^\n]*", lambda m: " " * len(m.group(0)), text)
    a = t.index("DefaultOptionsT")
    a = t.index("{", a) + 1
    path, out = [], []
    for m in re.compile(r"struct\s+(\w+)[^{;]*\{|(\})|using\s+(\w+)\s*=\s*([^;]*);").finditer(t, a):
        if m.group(1):
            path.append(m.group(1))
        elif m.group(2):
            if not path:
                break
            path.pop()
        else:
            out.append((m.start(4), m.end(4), path + [m.group(3)]))
    return out


def cls(ns, p, opt, iface, value_layers):
    """C++ class at the path of the options or None when there is nothing to customise"""
    k = max(i for i, x in enumerate(p) if x in ("field", "message", "frame") and i + 1 < len(p))
    # the first of them which is the container is right unless a namespace has the name, such are not used
    k = min(i for i, x in enumerate(p) if x in ("field", "message", "frame") and i + 1 < len(p))
    kind, rest = p[k], p[k + 1:]
    q = "::".join([ns] + p[:k + 1])
    if kind == "message" and len(rest) == 1:
        return "%s::%s<%s, %s>" % (q, rest[0], iface, opt)
    if kind == "frame" and len(rest) == 2:
        return "layer", "%s::%s<%s>" % (q, rest[0], opt), rest[1]
    return "%s::%s<%s>%s" % (q, rest[0], opt, "".join("::" + x for x in rest[1:]))


def unit(files, ns, heads, iface, id_layers, check_all=True):
    """(C++ text, number of checks)
    files: name of the options -> text of the header"""
    text = files["DefaultOptions"]
    ls = leaves(text)
    marked, end, paths = [], 0, []
    for i, (b, e, p) in enumerate(ls):
        marked += [text[end:b], "cm::Mark<%d>" % i]
        end = e
        paths.append(p)
    marked.append(text[end:])
    m = re.sub(r"#pragma once|#include[^\n]*", "", "".join(marked))
    m = m.replace("DefaultOptionsT", "MarkOptionsT").replace("DefaultOptions", "MarkOptions").replace("EmptyOptions", "MarkEmptyOptions")
    s = "".join('#include "%s"\n' % h for h in heads) + PRE + m
    q = ns.replace("/", "::")
    s += "namespace cx { using I = %s; using All = std::tuple<>; using O = %s::options::MarkOptions;\n" % (iface, q)
    n = 0
    for i, p in enumerate(paths):
        c = cls(q, p, "O", "I", None)
        if isinstance(c, tuple):
            if c[2] not in id_layers:
                continue
            # some of the layers are templates
            n += 1
            s += ("template <typename T> constexpr bool layer%d(typename T::%s*) { return cm::has<typename T::%s, cm::Mark<%d> >(); }\n"
                  "template <typename T> constexpr bool layer%d(typename T::template %s<I, All>*) { return cm::has<typename T::template %s<I, All>, cm::Mark<%d> >(); }\n"
                  "static_assert(layer%d<%s >(nullptr), \"OPT %s\");\n" % (i, c[2], c[2], i, i, c[2], c[2], i, i, c[1], ".".join(p)))
            continue
        n += 1
        inner = p[-2] not in ("message", "field")
        def pick(c):
            # the type of the field existing in some versions only has suffix
            return "decltype(pick%d<%s>(nullptr))" % (i, c[:c.rindex("::")]) if inner else c
        if inner:
            s += "template <typename T> typename T::%sField pick%d(typename T::%sField*);\ntemplate <typename T> typename T::%s pick%d(...);\n" % (p[-1], i, p[-1], p[-1], i)
        s += "static_assert(cm::has<%s, cm::Mark<%d> >(), \"OPT %s\");\n" % (pick(c), i, ".".join(p))
        # fields with the storage are covered by the options for data views and bare metal
        for o, want in (("DataViewDefaultOptions", "OrigDataView"), ("BareMetalDefaultOptions", None)):
            if o not in files or "message" in p and p[-2] == "message":
                continue
            oc = cls(q, p, "%s::options::%s" % (q, o), "I", None)
            n += 1
            oc = pick(oc)
            if want:
                s += "static_assert((cm::seq<%s >() == 0) || (cm::seq<%s >() == 3) || cm::has<%s, comms::option::app::OrigDataView>(), \"VIEW %s\");\n" % (oc, oc, oc, ".".join(p))
            else:
                s += ("static_assert((cm::seq<%s >() == 0) || cm::has<%s, comms::option::app::SequenceFixedSizeUseFixedSizeStorage>() || cm::has<%s, comms::option::app::FixedSizeStorage<DEFAULT_SEQ_FIXED_STORAGE_SIZE> >() || "
                      "cm::has<%s, comms::option::app::FixedSizeStorage<DEFAULT_SEQ_FIXED_STORAGE_SIZE * 8> >(), \"BARE %s\");\n" % (oc, oc, oc, oc, ".".join(p)))
    s += "}\nint main() {}\n"
    return s, n


FIELDS = ("int", "enum", "set", "float", "bitfield", "bundle", "string", "data", "list", "ref", "optional", "variant")


def expected(docs):
    """fields every one of which may be customised when everything is"""
    import xml.etree.ElementTree as E
    out = set()
    up = lambda n: n[0].upper() + n[1:]

    def members(e, path):
        for c in (e.find("fields") if e.find("fields") is not None else e):
            if c.tag in FIELDS and c.get("name"):
                field(c, path)

    def field(c, path):
        n = up(c.get("name"))
        if c.get("reuse") or c.get("copyFieldsFrom"):
            return
        out.add(path + (n,))
        if c.tag in ("bundle", "bitfield", "variant"):
            for m in (c.find("members") if c.find("members") is not None else c):
                if m.tag in FIELDS and m.get("name"):
                    field(m, path + (n + "Members",))

    def ns(e, path):
        for c in e:
            if c.tag == "ns":
                ns(c, path + (c.get("name"),))
            elif c.tag == "fields":
                for f in c:
                    if f.tag in FIELDS and f.get("name"):
                        pass
            elif c.tag == "message" and not c.get("reuse"):
                members(c, path + ("message", up(c.get("name")) + "Fields"))
                out.add(path + ("message", up(c.get("name"))))
    for _, t in docs:
        ns(E.fromstring(t), ())
    return out
