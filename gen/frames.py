"""Families for C04: frames. A case is (key, layers as XML, what to explore, injected files); cases sharing messages and interface are packed into one definition."""
import itertools
from gen.fam import el, schema
from gen import wire as gw
from model import cdsl, wire, frame as mf
from vlib import wire as vw

I = gw.I
MSGS = [("M1", {"id": "1"}, I("a") + I("b", "uint16"), ["000000", "01abcd", "ffab00"]),
        ("M2", {"id": "2"}, '<string name="s"><lengthPrefix><int name="l" type="uint8"/></lengthPrefix></string>', ["00", "026162"]),
        ("M2b", {"id": "2", "order": "1"}, I("c", "uint32"), ["00000001", "05cdabcd"]),
        ("E", {"id": "3"}, "", [""]),
        ("D", {"id": "4"}, '<data name="d"/>', ["", "abcd01"]),
        ("V", {"id": "5"}, '<int name="v" type="uint8" validRange="[1,3]" failOnInvalid="true"/>' + I("w"), ["0200", "03ab"]),
        ("T", {"id": "6"}, '<list name="t"><element>%s</element></list>' % I("e", "uint16"), ["", "0001abcd"])]
BIG = [("B", {"id": "300"}, I("a"), ["01"]), ("B2", {"id": "65535"}, I("a"), ["02"])]


def msgxml(ms): return "".join(el("message", dict({"name": n}, **a), x) for n, a, x, _ in ms)


def F(n, t="uint8", **a): return "<field>%s</field>" % I(n, t, **a)


def lay(k, n, f="", **a): return el(k, [("name", n)] + [(x, y) for x, y in a.items() if y is not None], f)


P = {"S": lambda **a: lay("sync", "Sync", F("SyncF", "uint16", endian="big", defaultValue="0xabcd"), **a),
     "Z": lambda **a: lay("size", "Size", F("SizeF"), **a), "I": lambda **a: lay("id", "Id", F("IdF"), **a)}
NM = {"S": "Sync", "Z": "Size", "I": "Id", "D": "Data"}
PAY = lay("payload", "Data")


def K(n, frm, ver=None, w="uint16", alg="sum"): return lay("checksum", n, F(n + "F", w), alg=alg, **{"from": frm, "verifyBeforeRead": ver})
def Y(n, frm=None, ver=None, seek=None, d="0xef"):
    if frm and not seek:
        ver = "true"
    return lay("sync", n, F(n + "F", defaultValue=d), **{"from": frm, "verifyBeforeRead": ver, "seekField": seek})


def prefixes():
    for r in range(4):
        yield from ("".join(p) for p in itertools.permutations("SZI", r))


def order():
    """prefix layers in every order, suffixes from every layer"""
    for p in prefixes():
        pre = "".join(P[x]() for x in p) + PAY
        frm = [NM[x] for x in p] + ["Data"]
        yield "order %s" % p, pre
        for f, v in itertools.product(frm, (None, "true")):
            yield "order %s K %s %s" % (p, f, v), pre + K("C", f, v)
        for f, v in [(x, "true") for x in frm] + [(None, None), (None, "true")]:
            yield "order %s Y %s %s" % (p, f, v), pre + Y("End", f, v)
        for f in frm:
            yield "order %s Yseek %s" % (p, f), pre + Y("End", f, None, "true")
    for p in ("", "I", "ZI", "SI", "IZ", "SIZ", "SZI", "ISZ"):
        pre = "".join(P[x]() for x in p) + PAY
        frm = [NM[x] for x in p] + ["Data"]
        for a, b in itertools.product(frm, frm):
            yield "two %s KK %s %s" % (p, a, b), pre + K("C", a) + K("C2", b, None, "uint8", "xor")
            yield "two %s KY %s %s" % (p, a, b), pre + K("C", a) + Y("End", b)
            yield "two %s YK %s %s" % (p, a, b), pre + Y("End", a) + K("C", b)
        for a in frm:
            yield "two %s KY %s -" % (p, a), pre + K("C", a) + Y("End")
            yield "two %s YK - %s" % (p, a), pre + Y("End") + K("C", a)
            yield "two %s YY %s" % (p, a), pre + Y("End", a) + Y("End2", None, None, None, "0x01")
            yield "two %s YYv %s" % (p, a), pre + Y("End", a, "true") + Y("End2", a, "true", None, "0x01")
            yield "two %s YYn %s" % (p, a), pre + Y("End") + Y("End2", a, "true", None, "0x01")
            yield "two %s KvYv %s" % (p, a), pre + K("C", a, "true") + Y("End", frm[0], "true")
            yield "two %s YseekK %s" % (p, a), pre + K("C", a) + Y("End", frm[0], None, "true")
    for p in ("ZI", "SZI"):
        pre = "".join(P[x]() for x in p) + PAY
        frm = [NM[x] for x in p] + ["Data"]
        for a, b, c in itertools.product(frm, repeat=3):
            yield "three %s KKY %s %s %s" % (p, a, b, c), pre + K("C", a) + K("C2", b, None, "uint8") + Y("End", c)
            yield "three %s YKY %s %s %s" % (p, a, b, c), pre + Y("End", a) + K("C", b) + Y("End2", c, None, None, "1")


def pref_checksum():
    for p in prefixes():
        for at in range(len(p) + 1):
            for v in (None, "true"):
                ls = [P[x]() for x in p]
                ls.insert(at, lay("checksum", "C", F("CF", "uint16"), alg="sum", until="Data", verifyBeforeRead=v))
                yield "pref %s %d %s" % (p, at, v), "".join(ls) + PAY
                if at == 0 or len(p) == 1:
                    yield "pref %s %d %s Y" % (p, at, v), "".join(ls) + PAY + Y("End", NM[p[0]] if p else None)


def fields():
    ids = [I("IdF", "uint8"), I("IdF", "uint16"), I("IdF", "uint16", endian="big"), I("IdF", "uint32", length="3"), I("IdF", "int8"), I("IdF", "uintvar"), I("IdF", "uint64"), I("IdF", "uint8", serOffset="3"), I("IdF", "intvar"),
           '<enum name="IdF" type="uint8" hexAssign="true"><validValue name="A" val="1"/><validValue name="B" val="2"/></enum>', '<ref name="IdF" field="GId"/>', '<ref name="IdF" field="GEnum"/>']
    sizes = [I("SizeF", "uint16"), I("SizeF", "uint32", endian="big"), I("SizeF", "uintvar"), I("SizeF", "int8"), I("SizeF", "uint8", serOffset="2"), I("SizeF", "uint16", serOffset="-1", defaultValue="1"), '<ref name="SizeF" field="GId"/>', I("SizeF", "uint64"),
             I("SizeF", "uint8", validRange="[0,6]"), I("SizeF", "uint8", validRange="[0,6]", failOnInvalid="true"), I("SizeF", "uint32", length="3")]
    syncs = [I("SyncF", "uint8", defaultValue="0"), I("SyncF", "uint32", defaultValue="0xabcd1234", endian="big"), I("SyncF", "int16", defaultValue="-2"), '<ref name="SyncF" field="GSync"/>', '<data name="SyncF" length="2" defaultValue="ab cd"/>', '<string name="SyncF" length="2" defaultValue="ab"/>',
             '<bundle name="SyncF">%s%s</bundle>' % (I("x", defaultValue="0xab"), I("y", "uint16", defaultValue="0x1234")), I("SyncF", "uint16", defaultValue="0xabab"), I("SyncF", defaultValue="0xab", failOnInvalid="true", validValue="0xab"), '<enum name="SyncF" type="uint8" defaultValue="A"><validValue name="A" val="0xab"/></enum>',
             '<set name="SyncF" length="1"><bit name="b" idx="3" defaultValue="true"/></set>', '<bitfield name="SyncF"><int name="q" type="uint8" bitLength="4" defaultValue="0xa"/><int name="p" type="uint8" bitLength="4" defaultValue="5"/></bitfield>', I("SyncF", "uint16", length="1", defaultValue="0xab")]
    for i, f in enumerate(ids):
        yield "fields id %d" % i, lay("id", "Id", "<field>%s</field>" % f) + P["Z"]() + PAY
        yield "fields id %d attr" % i, P["S"]() + lay("id", "Id", f) + PAY + K("C", "Id")
    for i, f in enumerate(sizes):
        yield "fields size %d" % i, lay("size", "Size", f) + P["I"]() + PAY
        yield "fields size %d K" % i, lay("size", "Size", f) + P["I"]() + PAY + K("C", "Size")
        yield "fields size %d inner" % i, P["I"]() + lay("size", "Size", f) + PAY + K("C", "Data")
    for i, f in enumerate(syncs):
        yield "fields sync %d" % i, lay("sync", "Sync", f) + P["Z"]() + P["I"]() + PAY
        yield "fields sync %d seek" % i, lay("sync", "Sync", f, seekField="true") + P["I"]() + PAY
        yield "fields sync %d end" % i, P["I"]() + PAY + lay("sync", "Sync", f)
        yield "fields sync %d end from" % i, P["Z"]() + P["I"]() + PAY + lay("sync", "Sync", f, seekField="true", **{"from": "Size"})
        yield "fields sync %d end seek" % i, P["I"]() + PAY + lay("sync", "Sync", f, seekField="true", **{"from": "Id"})
        yield "fields sync %d end verify" % i, P["I"]() + PAY + lay("sync", "Sync", f, verifyBeforeRead="true", **{"from": "Id"})
    esc = lambda d: "<escField>%s</escField>" % I("EscF", defaultValue=d)
    for d in ("0xab", "0x01", "0x00", "0x62"):
        yield "esc pre %s" % d, lay("sync", "Sync", F("SyncF", defaultValue="0xab") + esc(d), seekField="true") + P["I"]() + PAY
        yield "esc end %s" % d, P["I"]() + PAY + lay("sync", "Sync", F("SyncF", defaultValue="0xab") + esc(d), seekField="true", **{"from": "Id"})
        yield "esc data %s" % d, P["I"]() + PAY + lay("sync", "Sync", F("SyncF", defaultValue="0x61") + esc(d), seekField="true")


def algs():
    for a in ("sum", "xor", "crc-ccitt", "crc-16", "crc-32", "crc_ccitt"):
        for w, ln in (("uint8", None), ("uint16", None), ("uint32", None), ("uint64", None), ("int16", None), ("uint32", "3")):
            for en in (None, "big"):
                if ln and a[:3] == "crc":
                    continue  # a checksum wider than its field: what is kept is the field's business
                if a == "crc-32" and w in ("uint8", "uint16", "int16") or a in ("crc-16", "crc-ccitt", "crc_ccitt") and w == "uint8":
                    continue
                f = "<field>%s</field>" % I("CF", w, length=ln, endian=en)
                yield "algs %s %s %s %s" % (a, w, ln, en), P["I"]() + PAY + lay("checksum", "C", f, alg=a, **{"from": "Id"})
    inj = {"include/s/frame/checksum/TwiceSum.h": "#pragma once\n#include <cstdint>\nnamespace s { namespace frame { namespace checksum {\nstruct TwiceSum { template <typename TIter> std::uint32_t operator()(TIter& it, std::size_t len) const { std::uint32_t r = 0; for (; len > 0; --len, ++it) { r += 2 * static_cast<std::uint8_t>(*it); } return r; } };\n}}}\n"}
    for w in ("uint16", "uint32"):
        yield "custom alg %s" % w, P["I"]() + PAY + lay("checksum", "C", F("CF", w), alg="custom", algName="TwiceSum", **{"from": "Id"}), inj
        yield "custom alg pref %s" % w, lay("checksum", "C", F("CF", w), alg="custom", algName="TwiceSum", until="Data") + P["I"]() + PAY, inj
    yield "checksum ref", P["I"]() + PAY + lay("checksum", "C", '<ref name="CF" field="GCheck"/>', alg="sum", **{"from": "Id"})
    yield "checksum ref attr", P["I"]() + PAY + lay("checksum", "C", "", alg="xor", field="GId", **{"from": "Data"})
    yield "id size ref attr", lay("id", "Id", field="GId") + lay("size", "Size", field="GCheck") + PAY
    yield "names", lay("sync", "sy", F("sF", defaultValue="7", displayName="the sync")) + lay("id", "the_id", F("iF")) + lay("size", "siZe", F("zF", displayName="_")) + lay("payload", "pay_Load")


SUMX = "struct McTwice { template <typename TIter> std::uint32_t operator()(TIter& it, std::size_t len) const { std::uint32_t r = 0; for (; len > 0; --len, ++it) { r += 2 * static_cast<std::uint8_t>(*it); } return r; } };"


def injected(name, base, idp=False, calc=False, pre=""):
    par, arg = ("typename TField, typename TMessage, typename TAllMessages, typename TNext, typename... TOpt", "TField, TMessage, TAllMessages, TNext, TOpt...") if idp else ("typename TField, typename TNext, typename... TOpt", "TField, %sTNext, TOpt..." % ("Mc%s, " % name if calc else ""))
    return {"include/s/frame/layer/%s.h" % name: "#pragma once\n#include <cstdint>\n#include \"comms/frame/%s.h\"\nnamespace s { namespace frame { namespace layer {\n%s\ntemplate <%s> class %s : public comms::frame::%s<%s> {};\n}}}\n" % (base, SUMX.replace("McTwice", "Mc" + name) if calc else "", par, name, base, arg)}


def custom():
    """layers with injected classes in the place of the standard ones"""
    def cl(n, sem, f, **a): return lay("custom", n, f, semanticLayerType=sem, **a)
    L = {"I": (cl("MyId", "id", F("IdF")), injected("MyId", "MsgIdLayer", True)), "Z": (cl("MySize", "size", F("SizeF")), injected("MySize", "MsgSizeLayer")), "S": (cl("MySync", "sync", F("SyncF", defaultValue="0xab")), injected("MySync", "SyncPrefixLayer")),
         "i": (P["I"](), {}), "z": (P["Z"](), {}), "s": (P["S"](), {})}
    N = {"I": "MyId", "Z": "MySize", "S": "MySync", "i": "Id", "z": "Size", "s": "Sync"}
    ck, ckp = injected("MyCheck", "ChecksumLayer", calc=True), injected("MyPre", "ChecksumPrefixLayer", calc=True)
    ck2 = injected("MyCheck2", "ChecksumLayer", calc=True)
    for p in ("I", "IZ", "ZI", "Zi", "zI", "SZI", "sZi", "SiZ", "ISZ", "iSz", "zi"):
        pre, inj = "".join(L[x][0] for x in p) + PAY, {}
        for x in p:
            inj.update(L[x][1])
        if p != "zi":
            yield "custom %s" % p, pre, inj
        frm = [N[x] for x in p] + ["Data"]
        for f in frm:
            yield "custom %s K %s" % (p, f), pre + K("C", f), inj
            yield "custom %s C %s" % (p, f), pre + cl("MyCheck", "checksum", F("MyF", "uint16"), checksumFrom=f), dict(inj, **ck)
            yield "custom %s CY %s" % (p, f), pre + cl("MyCheck", "checksum", F("MyF", "uint16"), checksumFrom=f) + Y("End"), dict(inj, **ck)
            yield "custom %s YC %s" % (p, f), pre + Y("End") + cl("MyCheck", "checksum", F("MyF", "uint16"), checksumFrom=f), dict(inj, **ck)
            yield "custom %s CYv %s" % (p, f), pre + cl("MyCheck", "checksum", F("MyF", "uint16"), checksumFrom=f) + Y("End", f), dict(inj, **ck)
            yield "custom %s YvC %s" % (p, f), pre + Y("End", f) + cl("MyCheck", "checksum", F("MyF", "uint16"), checksumFrom=f), dict(inj, **ck)
            for g in frm:
                yield "custom %s CK %s %s" % (p, f, g), pre + cl("MyCheck", "checksum", F("MyF", "uint16"), checksumFrom=f) + K("C", g, None, "uint8"), dict(inj, **ck)
                yield "custom %s KC %s %s" % (p, f, g), pre + K("C", f, None, "uint8") + cl("MyCheck", "checksum", F("MyF", "uint16"), checksumFrom=g), dict(inj, **ck)
                if p in ("zi", "ZI"):
                    yield "custom %s CC %s %s" % (p, f, g), pre + cl("MyCheck", "checksum", F("MyF", "uint16"), checksumFrom=f) + cl("MyCheck2", "checksum", F("MyF", "uint16"), checksumFrom=g), dict(inj, **ck, **ck2)
        for at in range(len(p) + 1):
            ls = [L[x][0] for x in p]
            ls.insert(at, cl("MyPre", "checksum", F("MyF", "uint16"), checksumUntil="Data"))
            yield "custom %s pre %d" % (p, at), "".join(ls) + PAY, dict(inj, **ckp)


VALI = I("ver", semanticType="version") + I("flags", "uint16") + '<set name="st" length="1"><bit name="a" idx="0"/><bit name="b" idx="3"/></set>' + '<bundle name="bu">%s</bundle>' % (I("x") + I("y", "int16"))
VALM = [("M1", {"id": "1"}, I("a") + I("b", "uint16", sinceVersion="2") + I("c", sinceVersion="4", deprecated="5", removed="true"), ["0100020a0b0c"]), ("M2", {"id": "2", "sinceVersion": "2"}, I("a"), ["07"]), ("M3", {"id": "2", "order": "1"}, '<optional name="o" cond="%ver &lt;= 1"><field>' + I("x") + "</field></optional>" + I("n"), ["0102"])]


def val(n, idx, f, **a): return lay("value", n, f, interfaces="Message", interfaceFieldName=idx, **a)


def values():
    ver, flg, st = val("Ver", "ver", F("VerF")), val("Flg", "flags", F("FlgF", "uint16")), val("St", "st", '<field><set name="SetF" length="1"><bit name="a" idx="0"/><bit name="b" idx="3"/></set></field>')
    wide = val("Ver", "ver", F("VerF", "uint16"))
    base = {"I": P["I"](), "Z": P["Z"](), "S": P["S"](), "V": ver, "W": wide, "F": flg, "B": st, "v": val("Ver", "ver", F("VerF", defaultValue="3"), pseudo="true"), "f": val("Flg", "flags", F("FlgF", "uint16"), pseudo="true"), "n": val("Flg", "flags", F("FlgF", "uint8"))}
    for p in ("IV", "VI", "ZVI", "IZV", "VF", "VIF", "FIV", "WI", "IW", "BIV", "VIB", "vI", "Iv", "ZIv", "vIf", "IVf", "V", "v", "SVZI", "SIVF", "nI", "In", "FVBI", "IFVB", "IBvF"):
        for suf in ("", K("C", "Data"), K("C", {"I": "Id", "Z": "Size", "S": "Sync", "V": "Ver", "W": "Ver", "v": "Ver", "F": "Flg", "f": "Flg", "n": "Flg", "B": "St"}[p[0]])):
            yield "values %s %s" % (p, "".join(suf[-40:-30:3]) if 0 else suf[:60].replace("<", "").replace('"', "")), "".join(base[x] for x in p) + PAY + suf


VTYPES = [I("x", "uint64", endian="big"), I("x", "int16", length="1", serOffset="2"), '<float name="x" type="float"/>', '<enum name="x" type="uint16"><validValue name="A" val="1"/></enum>', '<string name="x"><lengthPrefix><int name="l" type="uint8"/></lengthPrefix></string>',
          '<data name="x" length="2"/>', '<bitfield name="x"><int name="p" type="uint8" bitLength="3"/><set name="q" bitLength="5"><bit name="b" idx="1"/></set></bitfield>', '<ref name="x" field="GSync"/>', I("x", "uintvar"), I("x", "uint8", validRange="[0,2]", failOnInvalid="true"), I("x", "uint8", defaultValue="7")]


def vtypes(i):
    def g():
        f = VTYPES[i]
        v = lay("value", "Val", f, interfaces="Message", interfaceFieldName="x")
        yield "vtype %d IV" % i, P["I"]() + v + PAY
        yield "vtype %d VI" % i, v + P["I"]() + PAY + K("C", "Val")
        yield "vtype %d ZIV" % i, P["Z"]() + P["I"]() + v + PAY
        if i in (0, 1, 8, 10):
            yield "vtype %d pseudo" % i, P["I"]() + lay("value", "Val", f, interfaces="Message", interfaceFieldName="x", pseudo="true") + PAY
        yield "vtype %d all" % i, P["I"]() + lay("value", "Val", f, interfaces="", interfaceFieldName="x") + PAY
    return g


GLOBALS = "<fields>%s%s%s%s</fields>" % (I("GId"), I("GSync", "uint16", defaultValue="0x12ab"), I("GCheck", "uint32", endian="big"), '<enum name="GEnum" type="uint16" hexAssign="true"><validValue name="A" val="1"/><validValue name="B" val="2"/></enum>')
FAMS = [("order", order, MSGS, "", None), ("prefsum", pref_checksum, MSGS, "", None), ("fields", fields, MSGS, "", None), ("algs", algs, MSGS, "", None), ("custom", custom, MSGS, "", None), ("values", values, VALM, VALI, "5")] + [("vtypes%d" % i, vtypes(i), MSGS[:3], I("w", "uint16") + f, None) for i, f in enumerate(VTYPES)]


def tpar(x): return "I, A%s" if x else "I"


def main_of(b):
    """harness: every frame with its layers"""
    p = b.proto()
    out = ['#include "frame.h"\n', '#include "s/Message.h"\n', '#include "s/input/AllMessages.h"\n'] + ['#include "s/frame/%s.h"\n' % n for _, n, _ in b.cases]
    out += ["using I = s::Message<comms::option::app::IdInfoInterface, comms::option::app::ReadIterator<const std::uint8_t*>, comms::option::app::WriteIterator<std::uint8_t*>, comms::option::app::LengthInfoInterface>;\nusing A = s::input::AllMessages<I>;\n"]
    mk = []
    for _, n, _ in b.cases:
        f = frame_of(p, n)
        fr = mf.Frame(None, f, [], None)
        t = "s::frame::%s<%s>" % (n, "I, A" if fr.hasid else "I")
        lays = [(i, l) for i, l in enumerate(f.layers) if l.kind != "payload"]
        acc = lambda l: l.name[0].lower() + l.name[1:]
        out.append("struct X%s {\n" % n)
        out.append("  static std::string names() { std::string r; %s return r; }\n" % " ".join("r += hw::nosp(std::decay<decltype(std::declval<%s&>().layer_%s())>::type::Field::name()) + \";\";" % (t, acc(l)) for i, l in lays))
        out.append("  template <typename F> static void pseudo(F& f, std::size_t i, const std::string& v) { static_cast<void>(f); static_cast<void>(i); static_cast<void>(v); %s }\n};\n" % " ".join("if (i == %d) { auto p = hw::path(\"\"); hw::set(f.layer_%s().pseudoField(), p, v); }" % (i, acc(l)) for i, l in lays if l.kind == "value" and l.vpseudo))
        mk.append("fw::mk<%s, I, A, %s, X%s>" % (t, "true" if fr.hasid else "false", n))
    out.append("int main() { return fw::loop({%s}); }\n" % ", ".join(mk))
    return "".join(out)


def frame_of(p, name):
    for s in p.schemas[-1:]:
        for _, n in sorted(s.namespaces.items()):
            for f in n.frames.values():
                if f.name == name:
                    return f


def batches(note=None, n=24, fams=FAMS):
    out = []
    for fn, g, ms, ifx, ver in fams:
        part, k = [], 0
        ifc = el("interface", {"name": "Message"}, ifx)
        gl = GLOBALS + ifc + msgxml(ms)
        at = {"nonUniqueMsgIdAllowed": "true"}
        if ver:
            at["version"] = ver
        def flush():
            nonlocal part, k
            if not part:
                return
            text = schema(gl + "".join(el("frame", {"name": "F%d" % i}, c[1]) for i, c in enumerate(part)), name="s", **at)
            files = {}
            for c in part:
                files.update(c[2] if len(c) > 2 else {})
            b = vw.Batch("%s|%d" % (fn, k), [("s.xml", text)], ["-c", "code"] if files else [], header="frame.h", main=main_of)
            b.files = {"code/" + x: y for x, y in files.items()}
            b.cases = [("%s|%s" % (fn, c[0]), "F%d" % i, ms) for i, c in enumerate(part)]
            out.append(b)
            k += 1
            part = []
        for c in g():
            p = cdsl.Protocol(False)
            try:
                p.load([schema(gl + el("frame", {"name": "F"}, c[1]), name="s", **at).encode()])
            except cdsl.Reject as e:
                if note is not None:
                    note.append((fn, c[0], str(e)))
                continue
            part.append(c)
            if len(part) >= n:
                flush()
        flush()
    return out


# ---- inputs
def corrupt(h):
    b = bytearray.fromhex(h)
    for i in range(len(b)):
        for v in {b[i] ^ 1, b[i] ^ 0x80, 0, 0xff, (b[i] + 1) & 255, 0xab} - {b[i]}:
            x = bytearray(b)
            x[i] = v
            yield x.hex()
    for i in range(len(b) + 1):
        yield b[:i].hex()
    for t in ("00", "ff", "abcd", "ef", h):
        yield h + t
        yield t + h
    for i in range(len(b) - 1):
        x = bytearray(b)
        x[i], x[i + 1] = x[i + 1], x[i]
        yield x.hex()
        yield (b[:i] + b[i + 1:]).hex()


ALPHA = ["00", "01", "02", "03", "ab", "cd", "ef"]


def explore(a):
    b, exe, _, limit = a
    env, allm = vw.env_of(b)
    p = b.proto()
    order = sorted(allm.values(), key=lambda m: (m.id, m.order))
    mi = {m.name: i for i, m in enumerate(order)}
    lines, exp, keys, seen = [], [], [], set()
    vers = bool(env.iface.fields) if env.iface else False
    for idx, (key, name, ms) in enumerate(b.cases):
        fobj = frame_of(p, name)
        f = mf.Frame(env, fobj, order, None)
        lays = [l for l in f.ls if l.kind != "payload"]
        pseudo = [i for i, l in enumerate(f.ls) if l.kind == "value" and l.vpseudo]
        def put(ops, toks):
            lines.append("%d %s\n" % (idx, " ".join(ops)))
            exp.append(toks)
            keys.append(key)
        put(["N"], ["N" + "".join((l.fld().dname if l.fld().dname and l.fld().dname != "_" else "" if l.fld().dname == "_" else l.fld().name).replace(" ", "_") + ";" for l in lays)])
        done = set()
        def read(conc, h, pv):
            if (conc, h, pv) in done:
                return
            done.add((conc, h, pv))
            f.pseudo = dict(pv)
            ops = ["q%d=%s" % (i, v) for i, v in pv]
            toks = []
            if not f.hasid:
                ops.append("m%d:%s" % (mi[conc], first[conc]))
            try:
                st, pos, r = f.decode(bytes.fromhex(h), None if f.hasid else allm[conc])
                t = f.show(st, pos)
            except wire.Unspecified:
                return
            put(ops + ["r" + h], [t])
        first = {m[0]: m[3][0] for m in ms}
        pvs = [()] if not pseudo else [()] + [tuple((i, v) for i in pseudo) for v in ("0", "2", "5")]
        tvals = [[]]
        if vers:
            tvals = [[], ["t0=7"]] if "vtypes" in b.key else [[], ["t0=0"], ["t0=2"], ["t0=4", "t1=513"], ["t0=5", "t2=1"]]
        for mn, _, _, pays in ms:
            for pay in pays:
                for tv in tvals:
                    r = wire.Run(env, allm[mn])
                    try:
                        st, n = r.m.read(bytes.fromhex(pay))
                        if st != wire.OK:
                            continue
                        for o in tv:
                            r.op(o)
                        f.pseudo = {}
                        h = f.encode(r).hex()
                    except wire.Unspecified:
                        continue
                    put(["m%d:%s" % (mi[mn], pay)] + tv + ["W"], ["W" + h])
                    for pv in pvs:
                        read(mn, h, pv)
                        for x in corrupt(h) if not tv or pv == () else [h]:
                            if len(x) <= 40:
                                read(mn, x, pv)
        if key.split("|")[1].split(" ")[0] in ("order", "pref", "esc", "values") and not vers:
            for k in range(5 if len(f.ls) <= 4 else 4):
                for x in itertools.product(ALPHA, repeat=k):
                    read("M1" if "M1" in allm else order[0].name, "".join(x), ())
    out, rc, err = vw.run_lines(exe, lines)
    bad = []
    states = set()
    for l, t, k, o in zip(lines, exp, keys, out):
        seen.add((k, o))
        if not vw.same(t, o):
            bad.append((k, l.strip(), " ".join(t), o))
    if len(out) < len(lines):
        i = len(out)
        bad.append((keys[i], lines[i].strip(), " ".join(exp[i]), "the program ended (%s) %s" % (rc, err)))
    states = len({(k, t) for k, ts in zip(keys, exp) for t in ts})
    return (len(lines), len(seen), states, sum(l.count(" ") for l in lines)), bad[:limit]
