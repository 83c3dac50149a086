"""Definitions which contain every kind of field in every place a field may have: the inputs of the compilation checks.

A kind is (key, text with {n} for the name, places it cannot be used in)."""
import itertools, random
from .fam import el, schema

K = []
def k(key, text, no=""): K.append((key, text, set(no.split())))

# ---- int
for t in ("int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "intvar", "uintvar"):
    k("int." + t, '<int name="{n}" type="%s"/>' % t, "bit")
k("int.def", '<int name="{n}" type="int16" defaultValue="-5" description="Some description&#10;with two lines"/>', "bit")
k("int.min64", '<int name="{n}" type="int64" defaultValue="-9223372036854775808"/>', "bit")
k("int.max64", '<int name="{n}" type="uint64" defaultValue="0xffffffffffffffff"/>', "bit")
k("int.len3", '<int name="{n}" type="uint32" length="3" endian="little"/>', "bit")
k("int.ser", '<int name="{n}" type="int16" serOffset="-5" length="1"/>', "bit")
k("int.ser64", '<int name="{n}" type="uint64" serOffset="0x7fffffffffffffff"/>', "bit")
k("int.noext", '<int name="{n}" type="int32" length="3" signExt="false"/>', "bit")
k("int.units", '<int name="{n}" type="uint32" units="mm" scaling="1/10" displayDecimals="2" displayOffset="-3"/>', "bit")
k("int.spec", '<int name="{n}" type="int32" validRange="[-5, 100]" validValue="200" displaySpecials="true"><special name="S1" val="-7"/><special name="class" val="300" displayName="sp &quot;x&quot; \\"/><special name="S3" val="0x7fffffff" sinceVersion="3" deprecated="4"/></int>', "bit")
k("int.rngver", '<int name="{n}" type="uint8" validCheckVersion="true" validRange="[0, 5]" defaultValue="2"><validRange value="[10, 20]" sinceVersion="2" deprecated="4"/><validValue value="77" sinceVersion="3"/></int>', "bit")
k("int.spec64", '<int name="{n}" type="uint64" nonUniqueSpecialsAllowed="true" validMin="10"><special name="A" val="0xffffffffffffffff"/><special name="B" val="0xffffffffffffffff"/><special name="C" val="0x8000000000000000"/></int>', "bit")
k("int.fix", '<int name="{n}" type="uint8" defaultValue="3" fixedValue="true" validValue="3"/>', "bit")
k("int.fail", '<int name="{n}" type="uint8" validRange="[0, 9]" failOnInvalid="true"/>', "bit")
k("int.pseudo", '<int name="{n}" type="uint8" defaultValue="7" pseudo="true"/>', "bit lst var opt layer tv")
k("int.bit", '<int name="{n}" type="uint8" bitLength="3" defaultValue="1"/>', "msg bun lst opt var tv layer ifc")
k("int.bit0", '<int name="{n}" type="int8" bitLength="5" validRange="[-3, 4]"/>', "msg bun lst opt var tv layer ifc")
k("int.cust", '<int name="{n}" type="uint8" customizable="true"/>', "bit")
k("int.disp", '<int name="{n}" type="uint8" displayName="Na &quot;me&quot; \\ %s" displayReadOnly="true" displayHidden="true"/>', "bit")
k("int.len", '<int name="{n}" type="uint8" semanticType="length" defaultValue="1"/>', "bit lst var opt tv layer ifc")
k("int.ver", '<int name="{n}" type="uint8" sinceVersion="2" deprecated="4" removed="true"/>', "bit lst var opt tv layer ifc")
k("int.since", '<int name="{n}" type="uint8" sinceVersion="3"/>', "bit lst var opt tv layer ifc")
# ---- enum
k("enum.u8", '<enum name="{n}" type="uint8" defaultValue="V2"><validValue name="V1" val="0" description="Any"/><validValue name="V2" val="1"/><validValue name="V3" val="2" displayName="x y"/></enum>', "bit")
k("enum.neg", '<enum name="{n}" type="int16"><validValue name="V1" val="-300"/><validValue name="V2" val="0"/><validValue name="V3" val="255"/></enum>', "bit")
k("enum.dup", '<enum name="{n}" type="uint8" nonUniqueAllowed="true" hexAssign="true"><validValue name="A" val="1"/><validValue name="B" val="1"/><validValue name="C" val="0xff"/></enum>', "bit")
k("enum.u64", '<enum name="{n}" type="uint64" defaultValue="V2"><validValue name="V1" val="0"/><validValue name="V2" val="0xffffffffffffffff"/><validValue name="V3" val="0x8000000000000000"/></enum>', "bit")
k("enum.i64", '<enum name="{n}" type="int64"><validValue name="V1" val="-9223372036854775808"/><validValue name="V2" val="0x7fffffffffffffff"/></enum>', "bit")
k("enum.var", '<enum name="{n}" type="uintvar" length="2"><validValue name="V1" val="1"/><validValue name="V2" val="16383"/></enum>', "bit")
k("enum.ver", '<enum name="{n}" type="uint8" validCheckVersion="true"><validValue name="V1" val="1"/><validValue name="V2" val="2" sinceVersion="2"/><validValue name="V3" val="3" sinceVersion="3" deprecated="4"/></enum>', "bit")
k("enum.names", '<enum name="{n}" type="uint8"><validValue name="FirstValue" val="7"/><validValue name="LastValue" val="8"/><validValue name="ValuesLimit" val="9"/></enum>', "bit")
k("enum.bit", '<enum name="{n}" type="uint8" bitLength="4"><validValue name="V1" val="0"/><validValue name="V2" val="15"/></enum>', "msg bun lst opt var tv layer ifc")
k("enum.one", '<enum name="{n}" type="uint8" availableLengthLimit="true"><validValue name="V1" val="0"/></enum>', "bit")
# ---- set
k("set.u8", '<set name="{n}" length="1" defaultValue="true"><bit name="B0" idx="0" defaultValue="false"/><bit name="class" idx="3" displayName="x"/><bit name="B7" idx="7" reserved="true" reservedValue="true"/></set>', "bit")
k("set.u64", '<set name="{n}" length="8" nonUniqueAllowed="true"><bit name="B0" idx="0"/><bit name="B63" idx="63" defaultValue="true"/><bit name="B63x" idx="63" defaultValue="true"/></set>', "bit")
k("set.t", '<set name="{n}" type="uint32" length="3" validCheckVersion="true"><bit name="A" idx="1" sinceVersion="2"/><bit name="B" idx="20" sinceVersion="2" deprecated="4"/></set>', "bit")
k("set.none", '<set name="{n}" length="2"/>', "bit")
k("set.bit", '<set name="{n}" bitLength="8"><bit name="A" idx="1"/><bit name="B" idx="7"/></set>', "msg bun lst opt var tv layer ifc")
# ---- float
k("flt.f", '<float name="{n}" type="float" defaultValue="-1.5" units="m/s" displayDecimals="3"/>', "bit")
k("flt.d", '<float name="{n}" type="double" defaultValue="nan" validFullRange="true"><special name="S1" val="inf"/><special name="S2" val="-inf"/><special name="S3" val="1e300" sinceVersion="2"/></float>', "bit")
k("flt.rng", '<float name="{n}" type="float" validRange="[-1.5, 1e10]" validValue="nan" validCheckVersion="true"><validRange value="[1e30, 1e31]" sinceVersion="2"/></float>', "bit")
# ---- bitfield
k("bf.2", '<bitfield name="{n}"><int name="m1" type="uint8" bitLength="3"/><enum name="m2" type="uint8" bitLength="2"><validValue name="V1" val="0"/></enum><set name="m3" bitLength="3"><bit name="A" idx="0"/></set></bitfield>', "bit")
k("bf.64", '<bitfield name="{n}" endian="little"><int name="m1" type="uint64" bitLength="60"/><int name="class" type="uint8" bitLength="4"><special name="S" val="3"/></int></bitfield>', "bit")
# ---- bundle
k("bun.1", '<bundle name="{n}"><int name="m1" type="uint8"/><string name="m2" length="4"/><bundle name="m3"><enum name="x" type="uint8"><validValue name="V1" val="0"/></enum></bundle></bundle>', "bit")
k("bun.cond", '<bundle name="{n}"><set name="flags" length="1"><bit name="B0" idx="0"/></set><int name="m1" type="uint8"/><optional name="m2" defaultMode="missing"><cond value="$flags.B0"/><field><int name="in" type="uint8"/></field></optional><optional name="m3"><and><cond value="$m1 = 3"/><or><cond value="!$flags.B0"/><cond value="$m1 &gt; 5"/></or></and><field><string name="in2" zeroTermSuffix="true"/></field></optional></bundle>', "bit var")
k("bun.ver", '<bundle name="{n}"><int name="m1" type="uint8"/><int name="m2" type="uint8" sinceVersion="2"/><string name="m3" sinceVersion="3" deprecated="4"><lengthPrefix><int name="lp" type="uint8"/></lengthPrefix></string></bundle>', "bit")
k("bun.kw", '<bundle name="{n}"><int name="class" type="uint8"/><int name="int" type="uint8"/><int name="and" type="uint8"/></bundle>', "bit")
k("bun.len", '<bundle name="{n}"><int name="len" type="uint8" semanticType="length"/><data name="d"/></bundle>', "bit")
# ---- string
k("str", '<string name="{n}"/>', "bit lst")
k("str.def", '<string name="{n}" defaultValue="a&quot;b\\c??/&#9;" length="16"/>', "bit")
k("str.z", '<string name="{n}" zeroTermSuffix="true" defaultValue="hello"/>', "bit")
k("str.lp", '<string name="{n}" encoding="UTF-8" validateMinLength="0"><lengthPrefix><int name="lp" type="uint16" validRange="[0, 300]"/></lengthPrefix></string>'.replace(' validateMinLength="0"', ""), "bit")
k("str.valid", '<string name="{n}" length="5" validValue="abc"><validValue value="def" sinceVersion="2"/></string>', "bit")
k("str.ref", '<string name="{n}"><lengthPrefix><ref name="lp" field="G4"/></lengthPrefix></string>', "bit")
# ---- data
k("dat", '<data name="{n}"/>', "bit lst")
k("dat.def", '<data name="{n}" defaultValue="01 02 ff" length="4"/>', "bit")
k("dat.lp", '<data name="{n}"><lengthPrefix><int name="class" type="uintvar" length="2"/></lengthPrefix></data>', "bit")
# ---- list
k("lst.fix", '<list name="{n}" count="3"><int name="e" type="uint16"/></list>', "bit")
k("lst.cp", '<list name="{n}"><countPrefix><int name="cp" type="uint8"/></countPrefix><element><bundle name="e"><int name="m1" type="uint8"/><string name="m2" length="2"/></bundle></element></list>', "bit")
k("lst.lp", '<list name="{n}"><lengthPrefix><int name="lp" type="uint8"/></lengthPrefix><element><string name="e"><lengthPrefix><int name="elp" type="uint8"/></lengthPrefix></string></element></list>', "bit")
k("lst.elp", '<list name="{n}"><countPrefix><int name="cp" type="uint8"/></countPrefix><elemLengthPrefix><int name="elp" type="uint8"/></elemLengthPrefix><element><bundle name="e"><int name="m1" type="uint8"/></bundle></element></list>', "bit")
k("lst.efl", '<list name="{n}" count="3" elemFixedLength="true"><elemLengthPrefix><int name="elp" type="uint8"/></elemLengthPrefix><element><int name="e" type="uint32"/></element></list>', "bit")
k("lst.term", '<list name="{n}"><element><ref name="e" field="G1"/></element><termSuffix><int name="ts" type="uint8" defaultValue="0xff" validValue="0xff" failOnInvalid="true"/></termSuffix></list>', "bit")
k("lst.lst", '<list name="{n}" count="2"><list name="e" count="2"><enum name="e" type="uint8"><validValue name="V1" val="0"/></enum></list></list>', "bit")
k("lst.ref", '<list name="{n}" element="G2"><countPrefix><ref name="cp" field="G4"/></countPrefix></list>', "bit")
k("lst.var", '<list name="{n}" count="2"><variant name="e"><bundle name="p1"><int name="key" type="uint8" defaultValue="1" validValue="1" failOnInvalid="true"/></bundle><bundle name="p2"><int name="key" type="uint8" defaultValue="2" validValue="2" failOnInvalid="true"/><data name="d" length="1"/></bundle></variant></list>', "bit")
k("lst.rest", '<list name="{n}"><int name="e" type="uint8"/></list>', "bit lst")
# ---- ref
k("ref.1", '<ref name="{n}" field="G1"/>', "bit")
k("ref.2", '<ref name="{n}" field="n1.n2.G5" displayName="Other"/>', "bit")
k("ref.b", '<ref name="{n}" field="G2" sinceVersion="2"/>', "bit var lst opt tv layer ifc")
k("ref.bit", '<ref name="{n}" field="G3" bitLength="4"/>', "msg bun lst opt var tv layer ifc")
k("ref.mem", '<ref name="{n}" field="G2.m2"/>', "bit") if False else None
# ---- optional
k("opt", '<optional name="{n}" displayExtModeCtrl="true"><int name="in" type="uint8"/></optional>', "bit lst opt")
k("opt.rf", '<optional name="{n}" missingOnReadFail="true" missingOnInvalid="true" defaultMode="exists" field="G2"/>', "bit opt")
k("opt.sz", '<optional name="{n}" defaultMode="tentative"><variant name="in"><int name="a" type="uint8" validValue="1" failOnInvalid="true"/><int name="b" type="uint8"/></variant></optional>', "bit opt")
# ---- variant
k("var.b", '<variant name="{n}" defaultMember="p2" displayIdxReadOnlyHidden="true"><bundle name="p1"><int name="key" type="uint8" defaultValue="1" validValue="1" failOnInvalid="true"/></bundle><bundle name="p2"><int name="key" type="uint8" defaultValue="2" validValue="2" failOnInvalid="true"/><string name="s" length="3"/></bundle><bundle name="any"><int name="key" type="uint8"/></bundle></variant>', "bit")
k("var.i", '<variant name="{n}"><int name="class" type="uint8"/><string name="b" length="2"/></variant>', "bit")
k("var.ref", '<variant name="{n}" defaultMember="0"><ref name="a" field="V1"/><ref name="b" field="V2"/></variant>', "bit")
k("var.ver", '<variant name="{n}"><bundle name="p1"><int name="key" type="uint8" defaultValue="1" validValue="1" failOnInvalid="true"/><int name="x" type="uint8" sinceVersion="3"/></bundle><int name="o" type="uint8"/></variant>', "bit")
K = [x for x in K if x]

G = ('<int name="G1" type="uint8"/><int name="G4" type="uint8" semanticType="length"/><bundle name="G2"><int name="m1" type="uint8"/><data name="m2" length="2"/></bundle><int name="G3" type="uint8" bitLength="4"/>'
     '<bundle name="V1"><int name="key" type="uint8" defaultValue="1" validValue="1" failOnInvalid="true"/></bundle><bundle name="V2"><int name="key" type="uint8" defaultValue="2" validValue="2" failOnInvalid="true"/><int name="m" type="uint16"/></bundle>')
NS = '<ns name="n1"><ns name="n2"><fields><enum name="G5" type="uint8"><validValue name="V1" val="1"/></enum></fields></ns></ns>'
FRAME = '<frame name="%s"><size name="Size"><int name="SF" type="uint16"/></size><id name="Id"><int name="IF" type="uint8"/></id><payload name="Data"/></frame>'


def name(i): return "f%d" % i


def fields(place, wrap="%s"):
    """every kind usable in the place"""
    return [(key, wrap % t.replace("{n}", name(i))) for i, (key, t, no) in enumerate(K) if place not in no]


def doc(body, nm="s", **a):
    return schema("<fields>" + G + "</fields>" + NS + body, nm, **dict({"dslVersion": "8", "version": "5", "endian": "big"}, **a))


IFC = '<interface name="Message"/>'
def msgs(l, per=12, base=0):
    out = []
    for i in range(0, len(l), per):
        out.append('<message name="M%d" id="%d" displayName="Message %d">%s</message>' % (i // per, base + i // per, i // per, "".join(l[i:i + per])))
    return "".join(out)


def ref(i, kind, fld):
    top = kind[1].split(">")[0]
    return '<ref name="r%d" field="%s"%s/>' % (i, fld, "".join(' %s="true"' % a for a in ("failOnInvalid", "pseudo") if a + '="true"' in top))


def zoo():
    """(key, [(file, text)])"""
    def one(key, body, **a): return (key, [("s.xml", doc(body, **a))])
    F = FRAME % "Fr"
    # a field that takes the rest of the input may only be followed by nothing on the wire when read; compilation does not mind
    yield one("msg", IFC + msgs([t for _, t in fields("msg")]) + F)
    yield one("global", IFC + "<fields>" + "".join(t for _, t in fields("bun")) + "</fields>" + msgs([ref(i, x, name(i)) for i, x in enumerate(K) if "bun" not in x[2]]) + F)
    yield one("bundle", IFC + msgs(['<bundle name="b%d"><int name="lead" type="uint8"/>%s</bundle>' % (i, t) for i, (_, t) in enumerate(fields("bun"))]) + F)
    yield one("bit", IFC + msgs(['<bitfield name="b%d">%s<int name="rest" type="uint8" bitLength="%d"/></bitfield>' % (i, t, r) for i, ((_, t), r) in enumerate(zip(fields("bit"), (5, 3, 4, 8, 4)))]) + F)
    yield one("list", IFC + msgs(['<list name="l%d" count="2">%s</list>' % (i, t) for i, (_, t) in enumerate(fields("lst"))]) + F)
    yield one("opt", IFC + msgs(['<optional name="o%d">%s</optional>' % (i, t) for i, (_, t) in enumerate(fields("opt"))]) + F)
    yield one("var", IFC + msgs(['<variant name="v%d">%s<int name="other" type="uint8"/></variant>' % (i, t) for i, (_, t) in enumerate(fields("var"))]) + F)
    tv = [t for _, t in fields("tv")]
    yield one("ifc", '<interface name="Message">%s</interface>' % "".join(t for _, t in fields("ifc")) + msgs([t for _, t in fields("msg")][:3]) + F)
    fr = "".join('<frame name="Fr%d"><id name="Id"><int name="IF" type="uint8"/></id><value name="Val" interfaceFieldName="flags">%s</value><payload name="Data"/></frame>' % (i, t) for i, t in enumerate(tv))
    yield one("tv", '<interface name="Message"><int name="flags" type="uint8"/></interface>' + msgs([t for _, t in fields("msg")][:3]) + "".join('<frame name="Fr%d"><id name="Id"><int name="IF" type="uint8"/></id><value name="Val" pseudo="true" interfaceFieldName="flags">%s</value><payload name="Data"/></frame>' % (i, t) for i, t in enumerate(tv) if "<int " in t[:5]))
    yield one("layer", IFC + msgs([t for _, t in fields("msg")][:3]) +
              '<frame name="A"><sync name="Sync"><int name="SyncF" type="uint16" defaultValue="0xabcd" fixedValue="true"/></sync><checksum name="Crc" alg="crc-32" until="Data" verifyBeforeRead="true"><int name="CF" type="uint32"/></checksum><size name="Size"><int name="SF" type="uint8" serOffset="2"/></size><id name="Id"><int name="IF" type="uint8"/></id><value name="Ver" interfaceFieldName="version"><int name="VF" type="uint8" semanticType="version"/></value><payload name="Data"/></frame>'.replace('<value name="Ver" interfaceFieldName="version"><int name="VF" type="uint8" semanticType="version"/></value>', "") +
              '<frame name="B"><sync name="Sync"><string name="SyncF" defaultValue="$GP" length="3"/></sync><id name="Id"><enum name="IF" type="uintvar" semanticType="messageId"><validValue name="M0" val="0"/><validValue name="M1" val="1"/></enum></id><payload name="Data"/><checksum name="Crc" alg="crc-ccitt" from="Sync"><int name="CF" type="uint16"/></checksum></frame>' +
              '<frame name="C"><size name="Size"><int name="SF" type="uintvar" length="3"/></size><id name="Id"><ref name="IF" field="G1"/></id><payload name="class"/></frame>')
    n = "".join('<ns name="%s"><fields>%s</fields>%s%s</ns>' % (x, "".join(t for _, t in fields("bun")[j::2][:14]), '<interface name="Ifc%d"><int name="ver" type="uint8" semanticType="version"/></interface>' % j, msgs([t for _, t in fields("msg")[j::3][:10]], 5) + FRAME % "Fr") for j, x in enumerate(("na", "nc", "Nb")))
    yield one("ns", IFC + n)
    # two schemas, the second referring to the first
    yield ("two", [("a.xml", schema("<fields>" + G + "".join(t for _, t in fields("bun") if "field=" not in t and "element=" not in t) + "</fields>", "other", dslVersion="8", version="5", endian="little")),
                   ("s.xml", doc(IFC + msgs([ref(i, x, "@other." + name(i)) for i, x in enumerate(K) if "bun" not in x[2] and "field=" not in x[1] and "element=" not in x[1]]) + F))])


# ------------------------------------------------------------------------------------------------ options of the tool
CUST = [[], ["--customization", "full"], ["--customization", "none"]]
NSO = [[], ["-n", "other_ns"], ["-n", "a1::b2"]]
VER = [[], ["--force-schema-version", "3"], ["--force-schema-version", "4", "-m", "3"], ["--version-independent-code"], ["-m", "5"]]
FMO = [[], ["--force-main-ns-in-options"]]
BUN = [[], ["--extra-messages-bundle", "Few@few.txt"]]


def matrix(full):
    if full:
        return [sum(x, []) for x in itertools.product(CUST, NSO, VER, FMO, BUN)]
    r = [a + b for a in CUST for b in FMO] + NSO[1:] + VER[1:] + BUN[1:]
    r += [CUST[i] + NSO[2 - i] + VER[i + 1] + FMO[1] + BUN[1] for i in range(3)]
    return r


def pick(keys): return [t.replace("{n}", name(i)) for i, (k, t, _) in enumerate(K) if k in keys]


def mini():
    """small definition with something of everything"""
    f = pick(["int.spec", "int.ver", "enum.ver", "set.u8", "bf.2", "bun.len", "bun.cond", "str.lp", "dat.lp", "lst.cp", "lst.term", "ref.b", "var.b"])
    return [("s.xml", doc('<fields>' + "".join(pick(["str.z", "lst.fix", "opt.rf", "int.cust", "flt.f"])) + '</fields><interface name="Message"><int name="version" type="uint8" semanticType="version"/><set name="fl" length="1"><bit name="B" idx="0"/></set></interface>' +
        '<message name="M0" id="0">%s</message><message name="M1" id="1" sender="client" customizable="true">%s<ref name="r" field="f%d"/></message><ns name="n3"><message name="M2" id="2" sender="server"><int name="x" type="uint8"/></message></ns>' %
        ("".join(f[:7]), "".join(f[7:]), [i for i, x in enumerate(K) if x[0] == "str.z"][0]) +
        '<frame name="Fr"><sync name="Sync"><int name="YF" type="uint8" defaultValue="7"/></sync><checksum name="Ck" alg="sum" until="Data"><int name="CF" type="uint8"/></checksum><size name="Size"><int name="SF" type="uint16"/></size><id name="Id"><int name="IF" type="uint8"/></id><value name="V" interfaceFieldName="version"><int name="VF" type="uint8" semanticType="version"/></value><payload name="Data"/></frame>'))]


# ------------------------------------------------------------------------------------------------ texts
TEXTS = ["ends with \\", "ends with ??/", "*/ int x; /*", "// comment", "/* comment", "a \"quoted\" 'text'", "%s %d %n", "#^#NAME#$#", "#^#", "multi\nline\ttext \\\nsecond", "\\", "\"", "'", "caf\u00e9 \u4e2d\u6587", "\\u0041 \\x41 \\0 \\n", "x" * 300, "word " * 80, "@param foo @ref bar $1 ${2} $(3)",
         "<b>tag</b> & amp;", "  lead and trail  ", "a\\", "\\\"", "line1\\\nline2\\\n", "R\"(raw)\"", "#include <x>", "{ } ; ,", "0", "\u00a0"]


def texts():
    from xml.sax.saxutils import quoteattr
    def att(t): return quoteattr(t, {"\n": "&#10;", "\t": "&#9;"})
    for i, t in enumerate(TEXTS):
        d = att(t)
        a = " description=%s displayName=%s" % (d, att(t.replace("\n", " ")))
        dd = " description=%s" % d
        f = ('<int name="a1" type="uint8"%s><special name="S1" val="1"%s/></int><enum name="a2" type="uint8"%s><validValue name="V1" val="1"%s/></enum><set name="a3" length="1"%s><bit name="B1" idx="1"%s/></set><float name="a4" type="float"%s/>'
             '<bitfield name="a5"%s><int name="m1" type="uint8" bitLength="8"%s/></bitfield><bundle name="a6"%s><int name="m1" type="uint8"%s/></bundle><string name="a7" length="400" defaultValue=%s%s/><data name="a8" length="2"%s/>'
             '<list name="a9" count="2"%s><element><int name="m1" type="uint8"%s/></element></list><ref name="a10" field="G1"%s/><optional name="a11"%s><field><int name="in" type="uint8"%s/></field></optional><variant name="a12"%s><int name="m1" type="uint8"%s/></variant>'
             % (a, a, a, a, a, a, a, a, a, a, a, d, a, a, a, a, a, a, a, a, a))
        v = '<string name="vs" length="400" validValue=%s/>' % d
        yield ("text|%d" % i, [("s.xml", schema("<fields>" + G + f + '</fields><interface name="Message"%s><int name="x" type="uint8"%s/></interface><message name="M0" id="0"%s>%s%s</message><ns name="nn"%s><fields><int name="q" type="uint8"%s/></fields></ns>' % (dd, a, a, f, v, dd, a) +
               '<frame name="Fr"%s><sync name="Y"%s><int name="YF" type="uint8"%s/></sync><id name="Id"%s><int name="IF" type="uint8"%s/></id><payload name="Data"%s/></frame>' % (dd, dd, a, dd, a, dd), "s", dslVersion="8", version="5", description=t))])


# ------------------------------------------------------------------------------------------------ names
# C++ keywords, macros and the identifiers the generated code reserves for itself (template parameters and the like) are not used: DESIGN.md
NAMES = ["final", "override", "Field", "value", "version", "read", "write", "length", "valid", "refresh", "name", "fields", "message", "msgId", "mode", "field", "frame", "input", "options", "dispatch", "factory", "std", "comms", "s", "size_t", "uint8_t", "assert", "min", "max", "_x", "x_", "X1",
         "f", "F", "M", "Id", "data", "layers", "members", "common", "hash", "optionalMode", "EmptyOptions", "DefaultOptions", "lp", "getValue", "setValue", "util", "size", "interface", "begin", "iter", "len", "es", "val", "ver", "result", "memFunc", "keyFields", "ORIG", "transportFields", "doRead", "eval", "field_value",
         "valueName", "hasSpecials", "isS1", "S1", "V1", "B1", "BitIdx", "BitIdx_B1", "FieldIdx_m1", "currentField", "initField", "accessField"]
RESERVED = {"ns": {"message", "field", "frame", "std", "comms"}, "interface": {"version", "msgId"}, "schema": {"Field", "message", "field", "frame", "input", "options", "dispatch", "factory", "std", "comms", "size_t", "uint8_t", "data", "EmptyOptions", "DefaultOptions"}}
SCHEMA_NAMES = ["final", "s", "version", "Id", "min", "X1", "_x", "util", "hash", "common"]

# kind: (around, one element {n} with index {i})
PLACES = {
    "ns": ("{}", '<ns name="{n}"><fields><int name="q" type="uint8"/></fields><message name="M1" id="{i}"><ref name="r" field="{n}.q"/></message></ns>'),
    "global": ('<fields>{}</fields><message name="M1" id="1"/>', '<int name="{n}" type="uint8"/>'),
    "gbundle": ('<fields>{}</fields><message name="M1" id="1"/>', '<bundle name="{n}"><int name="m" type="uint8"/><string name="q" length="2"/></bundle>'),
    "gref": ('<fields>{}</fields>', '<enum name="{n}" type="uint8"><validValue name="a" val="1"/></enum></fields><message name="M{i}" id="{i}"><ref name="r" field="{n}"/></message><fields>'),
    "message": ("{}", '<message name="{n}" id="{i}"><int name="q" type="uint8"/></message>'),
    "msgfield": ('<message name="M1" id="1">{}<int name="other9" type="uint8"/></message>', '<int name="{n}" type="uint8"/>'),
    "msgbundle": ('<message name="M1" id="1">{}</message>', '<bundle name="{n}"><int name="m9" type="uint8"/></bundle>'),
    "bunmem": ('<message name="M1" id="1"><bundle name="b9">{}<int name="other9" type="uint8"/></bundle></message>', '<int name="{n}" type="uint8"/>'),
    "bfmem": ('<message name="M1" id="1"><bitfield name="b9">{}<set name="other9" bitLength="4"><bit name="bb9" idx="0"/></set></bitfield></message>', '<int name="{n}" type="uint8" bitLength="1"/>'),
    "varmem": ('<message name="M1" id="1"><variant name="b9">{}<int name="other9" type="uint8"/></variant></message>', '<int name="{n}" type="uint8" validValue="{i}" failOnInvalid="true"/>'),
    "varbun": ('<message name="M1" id="1">{}</message>', '<variant name="b{i}"><bundle name="p9"><int name="{n}" type="uint8" defaultValue="1" validValue="1" failOnInvalid="true"/><int name="w9" type="uint8"/></bundle><bundle name="q9"><int name="{n}" type="uint8" defaultValue="2" validValue="2" failOnInvalid="true"/></bundle></variant>'),
    "optfield": ('<message name="M1" id="1">{}</message>', '<optional name="o{i}"><int name="{n}" type="uint8"/></optional>'),
    "element": ('<message name="M1" id="1">{}</message>', '<list name="l{i}" count="2"><int name="{n}" type="uint8"/></list>'),
    "prefix": ('<message name="M1" id="1">{}</message>', '<string name="l{i}"><lengthPrefix><int name="{n}" type="uint8"/></lengthPrefix></string>'),
    "enumval": ('<message name="M1" id="1"><enum name="e9" type="uint8">{}</enum></message>', '<validValue name="{n}" val="{i}"/>'),
    "special": ('<message name="M1" id="1"><int name="e9" type="uint8">{}</int></message>', '<special name="{n}" val="{i}"/>'),
    "bit": ('<message name="M1" id="1"><set name="e9" length="8">{}</set></message>', '<bit name="{n}" idx="{i}"/>'),
    "interface": ('{}<message name="M1" id="1"/>', '<interface name="{n}"><int name="q" type="uint8"/></interface>'),
    "ifcfield": ('<interface name="Ifc">{}</interface><message name="M1" id="1"/>', '<int name="{n}" type="uint8"/>'),
    "frame": ('<message name="M1" id="1"/>{}', '<frame name="{n}"><id name="Id"><int name="IF" type="uint8"/></id><payload name="Data"/></frame>'),
    "layer": ('<message name="M1" id="1"/>{}', '<frame name="Fr{i}"><id name="{n}"><int name="IF" type="uint8"/></id><payload name="Data9"/></frame>'),
    "payload": ('<message name="M1" id="1"/>{}', '<frame name="Fr{i}"><id name="Id9"><int name="IF" type="uint8"/></id><payload name="{n}"/></frame>'),
    "layerfield": ('<message name="M1" id="1"/>{}', '<frame name="Fr{i}"><id name="Id9"><int name="{n}" type="uint8"/></id><payload name="Data9"/></frame>'),
    "platform": ('<platforms>{}</platforms><message name="M1" id="1"/>', '<platform name="{n}"/>'),
}


def names():
    """every (element kind, name), a dozen of names which do not differ in case only in one definition"""
    for n in SCHEMA_NAMES:
        yield "name|schema|%s" % n, [("s.xml", schema(IFC + '<message name="M1" id="1"><int name="q" type="uint8"/></message>' + FRAME % "Fr9", n, dslVersion="8"))]
    for kind, (around, unit) in PLACES.items():
        left = [n for n in NAMES if n not in RESERVED.get(kind, ())]
        size = {"bfmem": 4, "platform": 3, "frame": 6, "layer": 6, "payload": 6, "layerfield": 6, "ns": 6, "interface": 6}.get(kind, 12)
        k = 0
        while left:
            g = []
            for n in left:
                if len(g) < size and n.lower().replace("_", "") not in {x.lower().replace("_", "") for x in g}:
                    g.append(n)
            left = [n for n in left if n not in g]
            t = around.replace("{}", "".join(unit.replace("{n}", n).replace("{i}", str(i + 1)) for i, n in enumerate(g)))
            fr = "" if kind in ("frame", "layer", "payload", "layerfield") else FRAME % "Fr9"
            ifc = "" if kind in ("interface", "ifcfield") else IFC
            yield "name|%s|%s" % (kind, "+".join(g)), [("s.xml", schema(ifc + t + fr, "s9", dslVersion="8"))]


# ------------------------------------------------------------------------------------------------ what is there and what is not
def shapes():
    parts = {"f": '<fields><string name="G1"/></fields>', "i": IFC, "m": '<message name="M1" id="1"><data name="d"/></message>', "r": FRAME % "Fr", "n": '<ns name="n"><fields><data name="q"/></fields></ns>', "k": '<ns name="k"><interface name="Ifc"/><message name="M2" id="2"><list name="l"><int name="e" type="uint8"/></list></message>%s</ns>' % (FRAME % "Fk"),
             "e": '<ns name="e"/>', "j": '<interface name="Second"><int name="x" type="uint16"/></interface>'}
    ks = sorted(parts)
    for r in range(len(ks) + 1):
        for c in itertools.combinations(ks, r):
            yield "shape|" + "".join(c), [("s.xml", schema("".join(parts[x] for x in c), "s", dslVersion="8", version="2"))]


def id_layers(docs):
    """only layers of message ids have options"""
    import re
    return {m.group(1)[0].upper() + m.group(1)[1:] for _, t in docs for m in re.finditer(r'<id\b[^>]*?\bname="(\w+)"', t)}
