"""Exhaustive families of small CommsDSL schemas.

A case is (key, flags, prefixes, [documents]). Every generator enumerates the full product of its alphabets; nothing is drawn at random."""
import itertools
from xml.sax.saxutils import quoteattr


def q(s): return quoteattr(s)


def el(tag, attrs=(), *kids):
    a = "".join(" %s=%s" % (k, q(v)) for k, v in (attrs.items() if isinstance(attrs, dict) else attrs))
    b = "".join(kids)
    return "<%s%s>%s</%s>" % (tag, a, b, tag) if b else "<%s%s/>" % (tag, a)


def schema(body, name="s", **attrs):
    a = {"name": name, "endian": "little", "version": "5"}
    a.update(attrs)
    return el("schema", {k: v for k, v in a.items() if v is not None}, body)


# Fields other fields may refer to; only those mentioned are emitted.
HELP = [
    ("I0", '<int name="I0" type="int16" defaultValue="3"><special name="Sp" val="7"/></int>'),
    ("U64", '<int name="U64" type="uint64" defaultValue="0xffffffffffffffff"/>'),
    ("N0", '<int name="N0" type="int8" defaultValue="-2"/>'),
    ("E0", '<enum name="E0" type="uint8" defaultValue="V2"><validValue name="V1" val="1"/><validValue name="V2" val="2"/></enum>'),
    ("T0", '<set name="T0" length="1" defaultValue="true"><bit name="B0" idx="0"/><bit name="B1" idx="1" defaultValue="false"/></set>'),
    ("F0", '<float name="F0" type="float" defaultValue="1.5"><special name="Sp" val="2.5"/></float>'),
    ("S0", '<string name="S0" defaultValue="str"/>'),
    ("D0", '<data name="D0" defaultValue="01 ab"/>'),
    ("L0", '<int name="L0" type="uint8" semanticType="length"/>'),
    ("Q0", '<bundle name="Q0"><int name="m1" type="uint8" defaultValue="4"/><string name="m2" defaultValue="zz" length="4"/></bundle>'),
    ("X0", '<optional name="X0"><int name="In" type="uint8" defaultValue="9"/></optional>'),
    ("V0", '<variant name="V0"><int name="a1" type="uint8"/><int name="a2" type="uint16"/></variant>'),
]


def helpers(text): return "".join(x for n, x in HELP if n in text)


# ------------------------------------------------------------------------------------------------ field properties
# property -> (values used in combinations, further values used alone)
B = (["true"], ["false", "1", "0", "TRUE", "x", "", "2"])
REFS = ["I0", "I0.Sp", "N0", "E0", "E0.V1", "E0.nope", "T0", "T0.B0", "F0", "S0", "Q0.m1", "Q0", "X0.In", "X0", "@s.I0", "@t.I0", "nope", "U64", "@s", "@", "a..b", ".I0", "I0."]
COMMON = {
    "name": (["_g"], ["f.g", "1f", "", "f-1", "F9"]),
    "displayName": (["dn"], ["a  b", "^S0", "\\^S0", "^nope", "^I0", "^", "_", ""]),
    "description": (["de"], ["^S0", "a \"b\" <c> &", "^nope", ""]),
    "sinceVersion": (["1"], ["0", "5", "6", "-1", "x", "0x2", "4294967295", "4294967296", "4294967297", ""]),
    "deprecated": (["3"], ["0", "1", "5", "6", "x", ""]),
    "removed": B,
    "semanticType": (["length"], ["version", "messageId", "none", "Length", "x", ""]),
    "pseudo": B, "fixedValue": B, "displayReadOnly": B, "displayHidden": B, "customizable": B, "failOnInvalid": B, "forceGen": B,
    "valueOverride": (["replace"], ["any", "extend", "none", "x", ""]), "readOverride": (["extend"], ["Replace"]), "writeOverride": (["none"], ["x"]), "refreshOverride": ([], ["replace"]),
    "lengthOverride": ([], ["replace"]), "validOverride": ([], ["extend"]), "nameOverride": ([], ["replace"]),
    "copyCodeFrom": (["I0"], ["nope", "@s.I0", ""]), "reuseCode": ([], ["true", "false", "x"]), "validateMinLength": (["1"], ["0", "2", "4", "x", "-1", ""]),
    "xunknown": (["u"], []), "pfx1": ([], ["v"]),
}
INTV = ["0", "1", "-1", "127", "128", "255", "256", "-128", "-129", "32767", "65535", "65536", "0x7fffffff", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
        "18446744073709551615", "18446744073709551616", "1x", "x1", "0x", " 5 ", "5 6", "1.5", "010", "08", "+3", "--3"]
KIND = {
    "int": {
        "type": (["uint8", "int16", "uintvar", "uint64"], ["int8", "uint16", "int32", "uint32", "int64", "intvar", "UINT8", "float", ""]),
        "defaultValue": (["2", "-1"], INTV + REFS), "units": (["mm"], ["m/s", "Kilometres / second", "x", ""]), "scaling": (["1/10"], ["2", "0/1", "1/0", "1/2/3", "-3/4", "x", "1/x", " 1 / 5 ", ""]),
        "endian": (["big"], ["Little", "x", ""]), "length": (["1", "3"], ["0", "2", "4", "8", "9", "10", "11", "x", ""]), "bitLength": (["3"], ["0", "1", "8", "9", "16", "64", "65", "x", ""]),
        "serOffset": (["-5", "2"], ["0", "255", "256", "-255", "9223372036854775807", "x", "128", "-128", ""]), "validRange": (["[1,5]", "[0,I0]"], ["[5, 1]", "[1 , 5]", "[-1,300]", "1,5", "[1,5", "[1;5]", "[,5]", "[1,]", "[a,b]", "[0,0xffffffffffffffff]",
                                                                                                                    "[9223372036854775808,9223372036854775809]", "[6,7]", "[-5,-1]", ""]),
        "validValue": (["4"], INTV + ["I0.Sp", "Q0.m1", "nope"]), "validMin": (["3"], ["-1", "0", "300", "18446744073709551615", "-9223372036854775808", "x", ""]), "validMax": (["6"], ["-1", "0", "300", "18446744073709551615", "x"]),
        "validCheckVersion": B, "nonUniqueSpecialsAllowed": B, "displayDecimals": (["2"], ["0", "-1", "x", "4294967296"]), "displayOffset": (["-2"], ["2", "x", ""]), "signExt": B, "displaySpecials": B, "defaultValidValue": (["5"], ["-1", "300", "I0.Sp", "x"]),
        "availableLengthLimit": B,
    },
    "enum": {
        "type": (["uint8", "int16", "uintvar", "uint64"], ["int8", "intvar", "int64", "float", ""]), "defaultValue": (["2", "V1"], INTV[:20] + REFS + ["V9"]), "endian": (["big"], ["x"]), "length": (["1", "3"], ["0", "2", "8", "9"]),
        "bitLength": (["3"], ["0", "8", "9", "16", "x"]), "nonUniqueAllowed": B, "validCheckVersion": B, "hexAssign": B, "availableLengthLimit": B,
    },
    "set": {
        "type": (["uint8", "uint32"], ["int8", "uint16", "uint64", "x", ""]), "defaultValue": (["true"], ["false", "1", "0", "T0", "T0.B1", "I0", "nope", "x", ""]), "endian": (["big"], ["x"]), "length": (["1", "3"], ["0", "2", "4", "5", "8", "9", "x", ""]),
        "bitLength": (["3"], ["0", "1", "8", "9", "64", "65", "x", ""]), "reservedValue": (["true"], ["T0.B0", "x", "0"]), "validCheckVersion": B, "nonUniqueAllowed": B, "availableLengthLimit": B,
    },
    "float": {
        "type": (["float", "double"], ["x", "Float", ""]), "defaultValue": (["2.5", "nan"], ["inf", "-inf", "NaN", "1e400", "3.5e38", "-1e38", "x", "1", "0x10", "F0", "F0.Sp", "I0", "E0.V1", "S0", "nope", "1e", " 1 ", "Infinity", ""]), "endian": (["big"], ["x"]),
        "validRange": (["[1.0,5.0]"], ["[5,1]", "[1 , 5]", "[nan,1]", "[-1e39,1]", "[F0,3]", "[3.0,7]", "[5.5,6]", "1,5", "[,]"]), "validFullRange": B, "validValue": (["4.5", "nan"], ["inf", "-inf", "1e39", "F0.Sp", "x", "3"]), "validMin": (["3"], ["nan", "-1e39", "x"]), "validMax": (["6"], ["1e39", "x"]),
        "validCheckVersion": B, "units": (["ms"], ["x"]), "displayDecimals": (["2"], ["x"]), "nonUniqueSpecialsAllowed": B, "displaySpecials": B,
    },
    "string": {
        "defaultValue": (["ab"], ["", "^S0", "^D0", "^nope", "\\^S0", "toolong", "\u00e9", "^Q0.m2", "a  b"]), "encoding": (["utf"], [""]), "length": (["4"], ["0", "x", "1", "4294967296"]), "lengthPrefix": (["I0", "$p"], ["E0", "L0", "nope", "$", "$nope", "$ p", ""]), "zeroTermSuffix": B, "validValue": (["cd"], ["^S0", "^nope", ""]),
        "defaultValidValue": (["ef"], ["^S0"]),
    },
    "data": {
        "defaultValue": (["01 02"], ["", "0", "0g", "^D0", "^S0", "^nope", "0a0B0c0d0e", "1 2", " 0 1 "]), "length": (["4"], ["0", "x", "1"]), "lengthPrefix": (["I0", "$p"], ["E0", "L0", "nope", "$"]), "validValue": (["03"], ["^D0", "x", ""]), "defaultValidValue": (["04"], ["^D0"]),
    },
    "list": {
        "element": (["I0"], ["nope", "S0", "Q0", ""]), "count": (["3"], ["0", "x", "4294967295", "4294967296"]), "elemFixedLength": B, "countPrefix": (["I0", "$p"], ["E0", "L0", "nope", "$", "$p.q", ""]), "lengthPrefix": (["L0", "$p"], ["I0", "E0"]),
        "elemLengthPrefix": (["I0", "$p"], ["E0"]), "termSuffix": (["I0", "$p"], ["S0", "nope"]),
    },
    "ref": {"field": (["I0", "E0"], ["S0", "nope", "X0", "@s.I0", "Q0", "T0", "F0", "D0", "V0", "L0", "@t.I0", "I0.Sp", ""]), "bitLength": (["3"], ["8", "16", "17", "x", "0"])},
    "optional": {"defaultMode": (["missing"], ["e", "T", "exists", "tent", "x", ""]), "cond": (["$p = 1"], ["$p", "!$p.a", "$nope = 1", "p = 1", "$p == 1", "", "$p >", "= 1"]), "displayExtModeCtrl": B, "missingOnReadFail": B, "missingOnInvalid": B, "field": (["I0"], ["nope", "S0", "Q0", ""])},
    "bitfield": {"endian": (["big"], ["x", ""]), "validCond": (["$m1 = 1"], ["$m1 = $m2", "$nope = 1", "$m1", "%i.f = 1", "x", ""]), "copyValidCondFrom": ([], ["nope", "I0", ""])},
    "bundle": {"reuseAliases": (["false"], ["true", "x"]), "validCond": (["$m1 = 1"], ["$m1 = $m2", "$nope = 1", "$m1", "%i.f = 1", "x", ""]), "copyValidCondFrom": ([], ["nope", "Q0", "I0"])},
    "variant": {"defaultMember": (["m2", "0"], ["1", "2", "-1", "m9", "x y", "E0.V1", "E0.V2", ""]), "displayIdxReadOnlyHidden": B},
}
SP = '<special name="%s" val="%s"%s/>'
VV = '<validValue name="%s" val="%s"%s/>'
BIT = '<bit name="%s" idx="%s"%s/>'
# structured children: (used in combinations, used alone)
KIDS = {
    "int": ([SP % ("S1", "1", ""), SP % ("S2", "1", ""), '<validRange value="[2,3]" sinceVersion="2"/>', '<validValue value="6"/>'],
            [SP % ("S1", "300", ""), SP % ("S1", "-1", ""), SP % ("1S", "1", ""), SP % ("S1", "x", ""), SP % ("S1", "I0.Sp", ""), SP % ("S1", "1", ' sinceVersion="2" deprecated="3" description="d" displayName="n"'), SP % ("S1", "1", ' sinceVersion="9"'),
             SP % ("S1", "1", ' xq="9"'), '<special name="S1"/>', '<special val="1"/>', '<special/>', '<special><name>S1</name><val value="3"/></special>', '<validRange>[2,3]</validRange>', '<validRange/>', '<validRange value="[2,3]">[2,3]</validRange>',
             '<validRange value="[2,3]" deprecated="4"/>', '<validMin value="2" sinceVersion="1"/>', '<validMax>9</validMax>', '<type value="uint8"/>', '<foo/>', '<foo bar="1">x</foo>', '<replace/>', '<replace><int name="a" type="uint8"/></replace>', '<meta/>', '<int name="a" type="uint8"/>',
             '<displayName>a\n  b</displayName>', '<!-- c -->', 'text', '<validValue value="I0.Sp" sinceVersion="2"/>', '<validValue name="V" val="3"/>']),
    "enum": ([VV % ("V3", "1", ""), VV % ("V4", "200", ""), VV % ("V5", "-3", "")],
             [VV % ("V1", "9", ""), VV % ("V3", "300", ""), VV % ("V3", "V2", ""), VV % ("V3", "E0.V1", ""), VV % ("V3", "I0", ""), VV % ("V3", "x", ""), VV % ("3V", "3", ""), VV % ("V3", "3", ' sinceVersion="2" deprecated="4" description="d" displayName="^S0"'), VV % ("V3", "3", ' sinceVersion="9"'),
              VV % ("V3", "3", ' xq="1"'), '<validValue name="V3"/>', '<validValue val="3"/>', '<validValue><name>V3</name><val>3</val></validValue>', '<special name="S" val="1"/>', VV % ("V3", "18446744073709551615", ""), VV % ("V3", "9223372036854775808", ""), VV % ("v1", "5", "")]),
    "set": ([BIT % ("B3", "1", ""), BIT % ("B4", "7", ' reserved="true"'), BIT % ("B5", "0", ' defaultValue="false"')],
            [BIT % ("B1", "5", ""), BIT % ("B3", "8", ""), BIT % ("B3", "64", ""), BIT % ("B3", "-1", ""), BIT % ("B3", "x", ""), BIT % ("3B", "3", ""), BIT % ("B3", "3", ' sinceVersion="2" deprecated="4" description="d" displayName="n"'), BIT % ("B3", "3", ' sinceVersion="9"'),
             BIT % ("B3", "3", ' reserved="true" reservedValue="true"'), BIT % ("B3", "3", ' reserved="true" sinceVersion="2"'), BIT % ("B3", "3", ' defaultValue="T0.B0" reserved="x"'), BIT % ("B3", "3", ' xq="1"'), '<bit name="B3"/>', '<bit idx="3"/>',
             '<bit><name>B3</name><idx>3</idx></bit>', BIT % ("B3", "0", ' sinceVersion="3"'), BIT % ("B3", "0x3", "")]),
    "float": ([SP % ("S1", "1.5", ""), SP % ("S2", "1.5", ""), SP % ("S3", "nan", ""), '<validRange value="[2.0,3.0]" sinceVersion="2"/>'],
              [SP % ("S1", "1e39", ""), SP % ("S1", "x", ""), SP % ("S1", "F0.Sp", ""), SP % ("S1", "inf", ' sinceVersion="2" description="d"'), '<special name="S1"/>', '<validValue>nan</validValue>', '<validFullRange value="true" sinceVersion="1"/>', '<validFullRange value="false"/>', '<validMin value="2" deprecated="4"/>',
               SP % ("S4", "nan", "") + SP % ("S5", "nan", ""), SP % ("S1", "I0.Sp", "")]),
    "string": (['<lengthPrefix><int name="lp" type="uint8"/></lengthPrefix>', '<validValue value="gh" sinceVersion="2"/>'],
               ['<lengthPrefix/>', '<lengthPrefix><enum name="lp" type="uint8"><validValue name="a" val="1"/></enum></lengthPrefix>', '<lengthPrefix><int name="a" type="uint8"/><int name="b" type="uint8"/></lengthPrefix>', '<lengthPrefix value="I0"/>', '<lengthPrefix>I0</lengthPrefix>',
                '<lengthPrefix><bogus/></lengthPrefix>', '<lengthPrefix><set name="lp" length="1"/></lengthPrefix>', '<lengthPrefix><int name="lp" type="uint8" serOffset="1"/></lengthPrefix>', '<lengthPrefix><int name="lp" type="uint64"/></lengthPrefix>', '<validValue>a</validValue>',
                '<lengthPrefix><bundle name="lp" semanticType="length"><int name="a" type="uint8" semanticType="length"/></bundle></lengthPrefix>', '<defaultValue value="x"/>']),
    "data": (['<lengthPrefix><int name="lp" type="uint8"/></lengthPrefix>', '<validValue value="05" sinceVersion="2"/>'], ['<lengthPrefix/>', '<lengthPrefix><bogus/></lengthPrefix>', '<validValue>a</validValue>', '<defaultValue>0a</defaultValue>']),
    "list": (['<element><int name="el" type="uint8"/></element>', '<countPrefix><int name="cp" type="uint8"/></countPrefix>', '<lengthPrefix><int name="lp" type="uint8"/></lengthPrefix>', '<elemLengthPrefix><int name="ep" type="uint8"/></elemLengthPrefix>', '<termSuffix><int name="ts" type="uint8"/></termSuffix>'],
             ['<element/>', '<int name="el" type="uint8"/>', '<element><string name="el"/></element>', '<element><bogus/></element>', '<element><int name="a" type="uint8"/><int name="b" type="uint8"/></element>', '<countPrefix/>', '<countPrefix><bogus/></countPrefix>',
              '<countPrefix><int name="cp" type="uint8" validMax="4" defaultValue="2"/></countPrefix>', '<countPrefix><string name="cp"/></countPrefix>', '<countPrefix><ref name="cp" field="I0"/></countPrefix>', '<countPrefix value="I0"/>', '<countPrefix>L0</countPrefix>', '<element>I0</element>', '<termSuffix value="I0"/>',
              '<countPrefix><int name="cp" type="uint64"/></countPrefix>', '<countPrefix><bundle name="cp" semanticType="length"><int name="a" type="uint8" semanticType="length"/></bundle></countPrefix>', '<element><list name="el" count="2"><int name="x" type="uint16"/></list></element>']),
    "ref": ([], ['<field value="I0"/>', '<field>E0</field>', '<foo/>']),
    "optional": (['<int name="o" type="uint8"/>', '<field><int name="o" type="uint8" defaultValue="3"/></field>', '<and><cond value="$p = 1"/><cond value="$p = 2"/></and>'],
                 ['<field/>', '<field value="I0"/>', '<field>I0</field>', '<field><bogus/></field>', '<field><int name="a" type="uint8"/><int name="b" type="uint8"/></field>', '<or><cond>$p = 1</cond><and><cond>$p = 3</cond><cond>$p = 2</cond></and></or>', '<and/>', '<and><cond value="$p = 1"/></and>', '<cond value="$p = 2"/>',
                  '<and><foo/><cond value="$p = 1"/></and>', '<optional name="o"><int name="a" type="uint8"/></optional>']),
    "bitfield": (['<replace><int name="m1" type="uint8" bitLength="3" defaultValue="2"/></replace>'],
                 ['<replace><int name="m1" type="uint8" bitLength="4"/></replace>', '<replace><int name="m9" type="uint8" bitLength="3"/></replace>', '<replace/>', '<validCond><and><validCond value="$m1 = 1"/><validCond value="$m2 = 1"/></and></validCond>', '<validCond>$m1 = 1</validCond>', '<members/>',
                  '<replace><string name="m1"/></replace>', '<alias name="al" field="$m1"/>', '<replace><int name="m1" type="uint8" bitLength="3" sinceVersion="1"/></replace>']),
    "bundle": (['<replace><int name="m1" type="uint16"/></replace>', '<alias name="al" field="$m1"/>'],
               ['<replace><int name="m9" type="uint8"/></replace>', '<replace><string name="m1"/><int name="m2" type="int8"/></replace>', '<replace/>', '<validCond><or><validCond value="$m1 = 1"/><validCond value="$m2 = 1"/></or></validCond>', '<validCond>$m1 = 1</validCond>', '<members/>', '<alias name="al" field="$m9"/>', '<alias name="m1" field="$m2"/>',
                '<alias name="M1" field="$m2"/>', '<alias name="al" field="m1"/>', '<alias name="al"/>', '<alias name="al" field="$m1" description="^S0" xq="1"/>', '<alias name="al" field="$m1.x"/>', '<alias name="al" field="$m1"/><alias name="Al" field="$m2"/>']),
    "variant": (['<replace><int name="m1" type="uint16"/></replace>'], ['<replace/>', '<members/>', '<replace><int name="m9" type="uint8"/></replace>']),
}
MEM = {"bitfield": '<members><int name="m1" type="uint8" bitLength="3"/><enum name="m2" type="uint8" bitLength="5"><validValue name="a" val="1"/></enum></members>',
       "bundle": '<members><int name="m1" type="uint8"/><int name="m2" type="uint16"/></members>', "variant": '<members><int name="m1" type="uint8"/><int name="m2" type="uint16"/></members>'}
# what a minimal definition of the kind needs: attributes, children
BASE = {"int": ({"type": "uint8"}, ""), "enum": ({"type": "uint8"}, VV % ("V1", "1", "") + VV % ("V2", "2", "")), "set": ({"length": "1"}, BIT % ("B1", "0", "") + BIT % ("B2", "2", "")), "float": ({"type": "float"}, ""), "string": ({}, ""), "data": ({}, ""),
        "list": ({}, '<element><int name="el" type="uint8"/></element>'), "ref": ({"field": "I0"}, ""), "optional": ({}, '<field><int name="o" type="uint8"/></field>'), "bitfield": ({}, MEM["bitfield"]), "bundle": ({}, MEM["bundle"]), "variant": ({}, MEM["variant"])}
KINDS = list(KIND)


def atoms(kind, level):
    """level 0: values used in combinations; 1: all"""
    out = []
    for src in (KIND[kind], COMMON):
        for n, (a, b) in src.items():
            out += [("a", n, v) for v in (a if level == 0 else a + b)]
    a, b = KIDS[kind]
    out += [("c", x, None) for x in (a if level == 0 else a + b)]
    return out


def build(kind, name, combo, base=True, extra=None):
    """element of the kind with the atoms applied; an attribute that is already there moves to a child element"""
    attrs = {} if name is None else {"name": name}
    kids = ""
    if base:
        attrs.update(BASE[kind][0])
    if extra:
        attrs.update(extra)
    given = set()
    bk = BASE[kind][1] if base else ""
    for a in combo:
        if a[0] == "a":
            if a[1] in given:
                kids += el(a[1], {"value": a[2]})
            else:
                attrs[a[1]] = a[2]
                given.add(a[1])
                if (kind, a[1]) in (("optional", "field"), ("list", "element"), ("set", "type"), ("set", "bitLength")):
                    if kind == "set":
                        attrs.pop("length", None) if "length" not in given else None
                    else:
                        bk = ""
        else:
            kids += a[1]
            if a[1].startswith(("<element", "<field>", "<int name=\"o\"", "<int name=\"el\"", "<field", "<optional name=\"o\"")) and kind in ("optional", "list"):
                bk = ""
            if a[1].startswith("<members"):
                bk = ""
    return el(kind, attrs, bk + kids)


def akey(combo): return "+".join("%s=%s" % (a[1], a[2]) if a[0] == "a" else a[1] for a in combo)


P = '<int name="p" type="uint8"/>'


def ctx_global(k, e): return el("fields", (), e)
def ctx_bundle(k, e): return el("fields", (), el("bundle", {"name": "Bu"}, P + e))
def ctx_message(k, e): return el("fields", ()) + el("message", {"name": "M", "id": "1"}, P + e)
def ctx_versioned(k, e): return el("message", {"name": "M", "id": "1", "sinceVersion": "1", "deprecated": "4"}, el("fields", (), P + e))
def ctx_nested(k, e): return el("fields", (), el("list", {"name": "Li", "count": "2"}, el("element", (), e)), el("bundle", {"name": "Bu", "sinceVersion": "0"}, el("members", (), P, el("optional", {"name": "op"}, el("field", (), e)))),
                                el("bundle", {"name": "Bv", "reuse": "Bu"}), el("variant", {"name": "Va"}, P + e), el("variant", {"name": "Vb", "reuse": "Va"}))
def ctx_reuse(k, e, name="f"): return el("fields", (), e, el(k, {"name": "g", "reuse": name}), el("bundle", {"name": "Bu"}, P, el(k, {"name": "h", "reuse": name})))
def ctx_iface(k, e): return el("interface", {"name": "If"}, P + e)


CTX = {"global": ctx_global, "bundle": ctx_bundle, "message": ctx_message, "versioned": ctx_versioned, "nested": ctx_nested, "reuse": ctx_reuse, "iface": ctx_iface}


def doc(body, **kw):
    h = helpers(body)
    return schema((el("fields", (), h) if h else "") + body, **kw)


def singles(kinds=KINDS, dsls=(None, 1, 2, 3, 4, 5, 6, 7, 8)):
    for k in kinds:
        ats = [()] + [(a,) for a in atoms(k, 1)]
        for c in ats:
            e = build(k, "f", c)
            for cn, cf in CTX.items():
                if cn == "reuse" and c and c[0][1] == "name":
                    continue
                yield "single|%s|%s|%s" % (k, cn, akey(c)), "", ["pfx"], [doc(cf(k, e))]
            for d in dsls[1:]:
                yield "single|%s|dsl%d|%s" % (k, d, akey(c)), "", ["pfx"], [doc(ctx_bundle(k, e) + ctx_message(k, e), dslVersion=str(d))]


def in_bitfield(kinds=("int", "enum", "set", "ref")):
    for k in kinds:
        cs = [()] + [(a,) for a in atoms(k, 1)] + list(itertools.combinations(atoms(k, 0), 2))
        for c in cs:
            e = build(k, "f", c, extra={"bitLength": "3"} if k != "set" else {"bitLength": "3"})
            for fill in ("5", "8", "13"):
                body = el("bitfield", {"name": "Bf"}, el("int", {"name": "p", "type": "uint16", "bitLength": fill}), e)
                yield "bits|%s|fill%s|%s" % (k, fill, akey(c)), "", [], [doc(el("fields", (), body, el("bitfield", {"name": "Bg", "reuse": "Bf"})))]
            e = build(k, "f", c)
            yield "bits|%s|full|%s" % (k, akey(c)), "", [], [doc(el("fields", (), el("bitfield", {"name": "Bf"}, e)))]
            yield "bits|%s|reuse|%s" % (k, akey(c)), "", [], [doc(el("fields", (), e, el("bitfield", {"name": "Bf"}, el(k, {"name": "g", "reuse": "f", "bitLength": "3"}), el("int", {"name": "p", "type": "uint8", "bitLength": "5"}))))]


def pairs(kinds=KINDS, n=2):
    for k in kinds:
        for c in itertools.combinations(atoms(k, 0), n):
            yield "comb%d|%s|%s" % (n, k, akey(c)), "", [], [doc(ctx_bundle(k, build(k, "f", c)))]
            yield "comb%d|%s|m|%s" % (n, k, akey(c)), "", [], [doc(ctx_message(k, build(k, "f", c)))]


def reuse_pairs(kinds=KINDS):
    """the base definition has one property, the element that reuses it another"""
    for k in kinds:
        at = [()] + [(a,) for a in atoms(k, 0)]
        for a in at:
            if a and a[0][1] == "name":
                continue
            e1 = build(k, "f", a)
            for b in at:
                e2 = build(k, "g", b, base=False, extra={"reuse": "f"})
                yield "reuse|%s|%s|%s" % (k, akey(a), akey(b)), "", [], [doc(el("fields", (), e1) + el("fields", (), e2, el("bundle", {"name": "Bu"}, P, build(k, "h", b, base=False, extra={"reuse": "f"}))))]


NUMTYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "intvar", "uintvar"]


def numbers():
    """every property that takes a number, with every boundary of every integral type"""
    vals = []
    for b in (7, 8, 15, 16, 31, 32, 63, 64):
        for d in (-1, 0, 1):
            vals.append((1 << b) + d)
            vals.append(-(1 << b) + d)
    vals = sorted(set(vals + [0, 1, -1, 2]))
    sp = lambda v: ["%d" % v, ("-" if v < 0 else "") + "0x%x" % abs(v)]
    for t in NUMTYPES:
        for v in vals:
            for s in sp(v):
                for prop in ("defaultValue", "validValue", "validMin", "validMax", "serOffset", "defaultValidValue", "displayOffset"):
                    yield "num|%s|%s=%s" % (t, prop, s), "", [], [schema(el("fields", (), el("int", {"name": "f", "type": t, prop: s})))]
                yield "num|%s|special=%s" % (t, s), "", [], [schema(el("fields", (), el("int", {"name": "f", "type": t, "defaultValue": "Sp"}, SP % ("Sp", s, ""))))]
                yield "num|%s|enum=%s" % (t, s), "", [], [schema(el("fields", (), el("enum", {"name": "f", "type": t, "defaultValue": s}, VV % ("A", s, "") + VV % ("B", "1", ""))))]
                yield "num|%s|enumref=%s" % (t, s), "", [], [schema(el("fields", (), el("enum", {"name": "e", "type": t}, VV % ("A", s, "")), el("int", {"name": "f", "type": "uint64", "defaultValue": "e.A"}), el("float", {"name": "g", "type": "double", "defaultValue": "e.A"})))]
        for length in range(0, 11):
            yield "num|%s|length=%d" % (t, length), "", [], [schema(el("fields", (), el("int", {"name": "f", "type": t, "length": str(length), "validMin": "1"}), el("enum", {"name": "e", "type": t, "length": str(length)}, VV % ("A", "1", "")), el("int", {"name": "g", "reuse": "f"})))]
        for bl in (0, 1, 2, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 65):
            for rest in (0, 1, 8 - bl % 8):
                b = el("int", {"name": "f", "type": t, "bitLength": str(bl), "validMax": "1", "validMin": "0"})
                b2 = el("enum", {"name": "f", "type": t, "bitLength": str(bl)}, VV % ("A", "1", ""))
                o = el("int", {"name": "p", "type": "uint64", "bitLength": str(rest)}) if rest else ""
                for n, x in (("int", b), ("enum", b2)):
                    yield "num|%s|%s|bitLength=%d/%d" % (t, n, bl, rest), "", [], [schema(el("fields", (), el("bitfield", {"name": "Bf"}, x, o)))]
    for bl in (0, 1, 2, 7, 8, 9, 63, 64, 65):
        for idx in (0, 1, 6, 7, 8, 62, 63, 64):
            for ln in (None, 1, 2, 8):
                e = el("set", {"name": "f", "bitLength": str(bl), **({"length": str(ln)} if ln else {})}, BIT % ("b", str(idx), ""))
                o = el("int", {"name": "p", "type": "uint8", "bitLength": str(8 - bl % 8)}) if bl % 8 else ""
                yield "num|set|%d|%d|%s" % (bl, idx, ln), "", [], [schema(el("fields", (), el("bitfield", {"name": "Bf"}, e, o)))]


def ranges():
    """all pairs of ranges with versions: the canonical list must hold exactly their union"""
    for t, ends in (("uint8", (0, 1, 2, 3, 254, 255)), ("int8", (-128, -1, 0, 1, 127)), ("uint64", (0, 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1)), ("int64", (-(1 << 63), -1, 0, (1 << 63) - 1)), ("uintvar", (0, (1 << 63) - 1, 1 << 63, (1 << 64) - 1))):
        rs = [(a, b) for a in ends for b in ends if a <= b]
        for (a, b), (c, d) in itertools.product(rs, rs):
            for v in ((0, 0), (0, 2)):
                x = "".join('<validRange value="[%d,%d]"%s/>' % (p, r, ' sinceVersion="%d"' % w if w else "") for (p, r), w in (((a, b), v[0]), ((c, d), v[1])))
                yield "range|%s|%d-%d|%d-%d|%d" % (t, a, b, c, d, v[1]), "", [], [schema(el("message", {"name": "M", "id": "1"}, el("int", {"name": "f", "type": t, "defaultValue": str(max(a, c))}, x)))]
    fe = ("-1.5", "0", "1", "1.5", "2")
    rs = [(a, b) for a in fe for b in fe if float(a) <= float(b)]
    for (a, b), (c, d) in itertools.product(rs, rs):
        for v in (0, 2):
            x = '<validRange value="[%s,%s]"/><validRange value="[%s,%s]" sinceVersion="%d"/>' % (a, b, c, d, v)
            yield "range|float|%s-%s|%s-%s|%d" % (a, b, c, d, v), "", [], [schema(el("message", {"name": "M", "id": "1"}, el("float", {"name": "f", "type": "float"}, x)))]


def versions():
    """sinceVersion x deprecated x removed of member, its parent and the schema version"""
    vs = (None, "0", "1", "2", "3", "4")
    for ms, md in itertools.product((None, "1", "2"), (None, "2", "3")):
        for s, d in itertools.product(vs, vs):
            for rem in (None, "true"):
                a = {k: v for k, v in (("sinceVersion", s), ("deprecated", d), ("removed", rem)) if v}
                ma = {k: v for k, v in (("sinceVersion", ms), ("deprecated", md)) if v}
                m = el("message", {"name": "M", "id": "1", **ma}, P + el("int", {"name": "f", "type": "uint8", **a}))
                b = el("message", {"name": "M", "id": "1", **ma}, P + el("bundle", {"name": "b"}, el("int", {"name": "g", "type": "uint8"}) + el("int", {"name": "f", "type": "uint8", **a})))
                c = m + el("message", {"name": "M2", "id": "2", "copyFieldsFrom": "M", **({"sinceVersion": "3"} if ms else {"sinceVersion": "2"})}, el("alias", {"name": "al", "field": "$f"}) if not rem else "")
                bu = el("fields", (), el("bundle", {"name": "b"}, el("int", {"name": "g", "type": "uint8"}) + el("int", {"name": "f", "type": "uint8", **a}))) + el("message", {"name": "M", "id": "1", **ma}, el("bundle", {"name": "c", "reuse": "b"}) + el("variant", {"name": "v"}, el("int", {"name": "g", "type": "uint8"}) + el("int", {"name": "f", "type": "uint8", **a})))
                for n, x in (("m", m), ("b", b), ("c", c), ("bu", bu)):
                    yield "ver|%s|%s-%s|%s-%s|%s" % (n, ms, md, s, d, rem), "", [], [schema(x, version="3")]


SIBS = {"int": '<int name="p" type="uint8"><special name="sp" val="3"/></int>', "enum": '<enum name="p" type="uint8"><validValue name="a" val="1"/></enum>', "set": '<set name="p" length="1"><bit name="a" idx="0"/></set>', "float": '<float name="p" type="float"/>',
        "string": '<string name="p" length="3"/>', "data": '<data name="p" length="3"/>', "list": '<list name="p" count="3"><int name="x" type="uint8"/></list>', "bundle": '<bundle name="p"><int name="a" type="uint8"/><set name="b" length="1"><bit name="a" idx="0"/></set></bundle>',
        "bitfield": '<bitfield name="p"><int name="a" type="uint8" bitLength="4"/><set name="b" bitLength="4"><bit name="a" idx="0"/></set></bitfield>', "optional": '<optional name="p"><int name="a" type="uint8"/></optional>', "optset": '<optional name="p"><set name="b" length="1"><bit name="a" idx="0"/></set></optional>',
        "variant": '<variant name="p"><int name="a" type="uint8"/></variant>', "ref": '<ref name="p" field="I0"/>', "refset": '<ref name="p" field="T0"/>', "refenum": '<ref name="p" field="E0"/>', "refstr": '<ref name="p" field="S0"/>', "refopt": '<ref name="p" field="X0"/>', "length": '<int name="p" type="uint8" semanticType="length"/>',
        "since": '<int name="p" type="uint8" sinceVersion="2"/>', "optref": '<optional name="p" field="I0"/>', "version": '<int name="p" type="uint8" semanticType="version"/>'}
EXPRS = ["$p", "!$p", "$p.a", "!$p.a", "$p.sp", "$p.b.a", "$p.B0", "$?p", "!$?p", "$#p", "$p = 1", "$p = a", "$p = sp", "$p = p.a", "$p = E0.V1", "$p = I0.Sp", "$p = S0", "$p = ^S0", "$p = -1", "$p = 1.5", "$p = x y", "$p != 300", "$p.a = 1", "$p.a = x", "$p.a.b = 1", "$p > 2", "$p>=2", "$p  <=  2", "$p < $r", "$p = $r",
         "$p.a = $r", "$r = $p", "$#p = 3", "$#p > x", "$?p = 1", "$p.#a = 1", "$p = $", "$ = 1", "$nope = 1", "$p.nope = 1", "%p = 1", "%p.a", "%nope = 1", "%f = 1", "%fs.a", "!%fs.a", "%f = $r", "$r = %f", "%#f = 1", "!$p = 1", "p", "1 = $p", "$p = \\= 1", "$p == 1", "$p => 1", "$p <> 1", "$p =", "= 1", "!", "$", "%", "$p = a = b", "$p.b = 1", "$?p.a",
         "$p = $p", "! $p.a", "$p ! = 1", "$ p = 1"]


def conditions():
    iface = el("interface", {"name": "If"}, '<int name="f" type="uint8"/>' + '<set name="fs" length="1"><bit name="a" idx="0"/></set>')
    for sk, sx in SIBS.items():
        for e in EXPRS:
            for rk in ("int", "enum", "string"):
                if "$r" not in e and rk != "int":
                    continue
                r = SIBS[rk].replace('name="p"', 'name="r"')
                o = el("optional", {"name": "o", "cond": e}, el("int", {"name": "x", "type": "uint8"}))
                yield "cond|%s|%s|%s|opt" % (sk, rk, e), "", [], [doc(iface + el("message", {"name": "M", "id": "1"}, sx + r + o))]
                yield "cond|%s|%s|%s|bundle" % (sk, rk, e), "", [], [doc(iface + el("fields", (), el("bundle", {"name": "Bu"}, sx + r + o)) + el("message", {"name": "M", "id": "1", "copyFieldsFrom": "Bu"}))]
                yield "cond|%s|%s|%s|valid" % (sk, rk, e), "", [], [doc(iface + el("fields", (), el("bundle", {"name": "Bu", "validCond": e}, el("members", (), sx + r)), el("bundle", {"name": "Bv", "reuse": "Bu"})))]
                yield "cond|%s|%s|%s|msg" % (sk, rk, e), "", [], [doc(iface + el("message", {"name": "M", "id": "1", "validCond": e}, el("fields", (), sx + r)) + el("message", {"name": "N", "id": "2", "reuse": "M"}))]
                if rk == "int" and sk in ("int", "set", "bundle"):
                    for d in (1, 5, 6, 7):
                        yield "cond|%s|%s|%s|dsl%d" % (sk, rk, e, d), "", [], [doc(iface + el("message", {"name": "M", "id": "1", "validCond": e}, el("fields", (), sx + r + o)), dslVersion=str(d))]
    tree = ["$p = 1", "$p", "%f = 1", "!$p.a", "$nope = 1"]
    for op in ("and", "or"):
        for a, b in itertools.product(tree, tree):
            for n in (0, 1, 2):
                c = lambda nm: [el(op, (), el(nm, {"value": a}), el(nm, {"value": b})), el(op, (), el(nm, {"value": a}), el("or", (), el(nm, {"value": b}), el(nm, (), "$p = 2"))), el(op, (), el("and", (), el(nm, {"value": a}), el(nm, (), "$p = 2")), el("or", (), el(nm, {"value": b}), el(nm, (), "$p = 2")))][n]
                for sk in ("int", "set"):
                    yield "tree|%s|%s|%s|%d|%s|opt" % (op, a, b, n, sk), "", [], [doc(iface + el("message", {"name": "M", "id": "1"}, SIBS[sk] + el("optional", {"name": "o"}, el("field", (), el("int", {"name": "x", "type": "uint8"})) + c("cond"))))]
                    for pr in ("validCond", "readCond", "construct"):
                        yield "tree|%s|%s|%s|%d|%s|%s" % (op, a, b, n, sk, pr), "", [], [doc(iface + el("message", {"name": "M", "id": "1"}, el("fields", (), SIBS[sk]), el(pr, (), c(pr))))]


# ------------------------------------------------------------------------------------------------ messages, interfaces
MSG = {
    "name": (["N"], ["1M", ""]), "id": ([], ["0", "-1", "0x10", "E0.V1", "E0.nope", "@s.E0.V2", "I0", "x", "18446744073709551615", "18446744073709551616", "4294967296", ""]), "displayName": (["dn"], ["^S0", "_"]), "description": (["de"], ["^S0", "^nope"]), "sinceVersion": (["1"], ["5", "6", "x"]), "deprecated": (["3"], ["0", "6", "1"]),
    "removed": B, "copyFieldsFrom": (["M0", "Q0"], ["nope", "I0", "@s.M0", ""]), "copyFieldsAliases": (["false"], ["true", "x"]), "order": (["1"], ["0", "-1", "x"]), "platforms": (["+p1", "-p1"], ["p1", "+p9", "+", "-", "+p1,p2", "- p1 , p2", "-p1,p2", "+p1,", "+,p1", "+p1,p1", ""]), "customizable": B,
    "sender": (["client"], ["both", "server", "Server", "x", ""]), "validateMinLength": (["1"], ["0", "3", "x"]), "readOverride": (["none"], ["x", "any"]), "writeOverride": ([], ["replace"]), "refreshOverride": ([], ["extend"]), "lengthOverride": ([], ["replace"]), "validOverride": ([], ["replace"]), "nameOverride": ([], ["replace"]), "valueOverride": ([], ["replace"]),
    "copyCodeFrom": (["M0"], ["nope"]), "constructAsReadCond": B, "constructAsValidCond": B, "failOnInvalid": B, "reuse": (["M0"], ["nope", "I0", ""]), "reuseCode": (["true"], ["x"]), "reuseAliases": (["false"], ["x"]), "copyConstructFrom": (["M0"], ["nope", "M1"]), "copyReadCondFrom": (["M0"], ["M1"]), "copyValidCondFrom": (["M0"], ["M1", "Bv0", "Q0"]),
    "construct": (["%f = 1"], ["%f > 1", "%fs.a", "!%fs.a", "$p = 1", "x"]), "readCond": (["%f > 1"], ["%fs.a", "$p = 1", "%nope = 1"]), "validCond": (["$p = 1"], ["%f = 1", "$nope = 1"]), "xunknown": (["u"], []),
}
MKIDS = (['<fields><int name="p" type="uint8"/></fields>', '<alias name="al" field="$p"/>', '<replace><int name="m0" type="uint16"/></replace>'],
         ['<fields/>', '<fields><bogus/></fields>', '<fields><int name="p" type="uint8"/></fields><fields/>', '<int name="p" type="uint8"/>', '<alias name="al" field="$nope"/>', '<replace/>', '<replace><int name="zz" type="uint8"/></replace>', '<foo/>', '<construct><and><construct value="%f = 1"/><construct value="%fs.a"/></and></construct>',
          '<readCond><or><readCond value="%f = 1"/><readCond value="%fs.a"/></or></readCond>', '<validCond>$p = 1</validCond>', '<id value="3"/>', '<fields><int name="p" type="uint8"/><int name="p" type="uint8"/></fields>', '<fields><int name="p" type="uint8"/><int name="P" type="uint8"/></fields>', '<alias name="a0" field="$p"/>'])


def messages(n=2):
    iface = el("interface", {"name": "If"}, '<int name="f" type="uint8"/>' + '<set name="fs" length="1"><bit name="a" idx="0"/></set>')
    m0 = '<message name="M0" id="10" order="2" sender="server" displayName="d0" platforms="+p1,p2" construct="%f = 2" readCond="%f = 3" validCond="$m0 = 1" failOnInvalid="true"><fields><int name="m0" type="uint8"/><bundle name="m1"><int name="q" type="uint8"/></bundle></fields><alias name="a0" field="$m0"/><alias name="a1" field="$m1.q"/></message>'
    m1 = '<message name="M1" id="11"><int name="z" type="uint8" sinceVersion="1" deprecated="2" removed="true"/></message>'
    bv = '<fields><bundle name="Bv0" validCond="$p = 3"><members><int name="p" type="uint8"/></members></bundle></fields>'
    plat = '<platform name="p1"/><platforms><platform name="p2"/></platforms>'
    full = [("a", n_, v) for n_, (a, b) in MSG.items() for v in a + b] + [("c", x, None) for x in MKIDS[0] + MKIDS[1]]
    core = [("a", n_, v) for n_, (a, b) in MSG.items() for v in a] + [("c", x, None) for x in MKIDS[0]]
    cs = [()] + [(a,) for a in full] + list(itertools.combinations(core, n))
    if n == 2:
        cs += [(a, b) for a in full if a not in core for b in core if b[1] in ("reuse", "copyFieldsFrom") or b[0] == "c"]
    for c in cs:
        attrs, kids = {"name": "M", "id": "1"}, ""
        given = set()
        for a in c:
            if a[0] == "c":
                kids += a[1]
            elif a[1] in given:
                kids += el(a[1], {"value": a[2]})
            else:
                attrs[a[1]] = a[2]
                given.add(a[1])
        body = el("message", attrs, kids)
        head = plat + iface + (bv if "Bv0" in body else "") + (m0 if "M0" in body else "") + (m1 if "M1" in body else "")
        yield "msg|" + akey(c), "", [], [doc(head + body)]
        if n == 2:
            yield "msg|2nd|" + akey(c), "", [], [doc(head + body + el("message", {"name": "R", "id": "50", "reuse": attrs["name"], "order": "0"}))]
        if len(c) <= 1:
            for d in range(1, 9):
                yield "msg|dsl%d|" % d + akey(c), "", [], [doc((head if d >= 7 else plat + iface + (m0.replace('construct="%f = 2" readCond="%f = 3" validCond="$m0 = 1" failOnInvalid="true"', '') if "M0" in body else "")) + body, dslVersion=str(d))]


def holders():
    """interfaces and aliases"""
    i0 = '<interface name="I1" description="de"><fields><int name="f0" type="uint8"/><int name="f1" type="uint8"/></fields><alias name="a0" field="$f0"/></interface>'
    A = [("name", "J"), ("name", "1J"), ("description", "^S0"), ("copyFieldsFrom", "I1"), ("copyFieldsFrom", "Q0"), ("copyFieldsFrom", "nope"), ("copyFieldsFrom", "I0"), ("copyFieldsAliases", "false"), ("reuse", "I1"), ("reuse", "nope"), ("reuseCode", "true"), ("reuseAliases", "false"), ("reuseAliases", "x"), ("xunknown", "1")]
    K = ['<fields><int name="g" type="uint8"/></fields>', '<int name="g" type="uint8"/>', '<alias name="al" field="$g"/>', '<alias name="al" field="$f0"/>', '<alias name="a0" field="$f1"/>', '<fields><int name="f0" type="uint8"/></fields>', '<foo/>', '<fields/>', '<fields><int name="v" type="uint8" semanticType="version"/></fields>']
    ats = [("a",) + x for x in A] + [("c", x, None) for x in K]
    for n in (0, 1, 2, 3):
        for c in itertools.combinations(ats, n):
            attrs, kids = {"name": "If"}, ""
            if len({a[1] for a in c if a[0] == "a"}) < sum(a[0] == "a" for a in c):
                continue
            for a in c:
                if a[0] == "a":
                    attrs[a[1]] = a[2]
                else:
                    kids += a[1]
            for d in ((None,) if n > 1 else (None, 2, 3, 4, 6, 7)):
                yield "iface|%s|%s" % (d, akey(c)), "", [], [doc(i0 + el("interface", attrs, kids), dslVersion=None if d is None else str(d))]
    # aliases of bundles
    for name in ("al", "m1", "M2", "_", "1"):
        for f in ("$m1", "$m3.q", "$m3", "$m3.nope", "$m4.b", "$m5.v", "$nope", "m1", "$", "$m1.q", "$m3.", "$.m3", "$m3..q", "$m6.x", "$m3.r.s"):
            mem = '<members><int name="m1" type="uint8"/><int name="m2" type="uint8"/><bundle name="m3"><int name="q" type="uint8"/><bundle name="r"><int name="s" type="uint8"/></bundle></bundle><bitfield name="m4"><int name="b" type="uint8"/></bitfield><variant name="m5"><int name="v" type="uint8"/></variant><optional name="m6"><int name="x" type="uint8"/></optional></members>'
            al = el("alias", {"name": name, "field": f})
            for n, body in (("b", el("fields", (), el("bundle", {"name": "Bu"}, mem, al), el("bundle", {"name": "Bv", "reuse": "Bu"}), el("bundle", {"name": "Bw", "reuse": "Bu", "reuseAliases": "0"}), el("bundle", {"name": "Bx"}, el("bundle", {"name": "Bu", "reuse": "Bu"})), el("bundle", {"name": "By", "reuse": "Bx"}))),
                            ("m", el("message", {"name": "M", "id": "1"}, mem.replace("members", "fields"), al) + el("message", {"name": "N", "id": "2", "copyFieldsFrom": "M"}) + el("message", {"name": "O", "id": "3", "reuse": "M"}) + el("message", {"name": "Q", "id": "4", "copyFieldsFrom": "M", "copyFieldsAliases": "false"}))):
                yield "alias|%s|%s|%s" % (n, name, f), "", [], [schema(body)]
    for mem in ("", "$o.m1"):
        yield "alias|2|%s" % mem, "", [], [schema(el("fields", (), el("bundle", {"name": "Bu"}, el("members", (), P), el("alias", {"name": "x", "field": mem or "$p"}), el("alias", {"name": "X", "field": "$p"}))))]


# ------------------------------------------------------------------------------------------------ frames
F8 = '<int name="%s" type="uint8"/>'


def layer(k, i, opt=None):
    a = {"name": "L%d" % i}
    f = el("field", (), F8 % ("F%d" % i))
    if k == "payload":
        f = ""
    if k == "checksum":
        a.update(alg="sum")
    if k == "value":
        a.update(interfaces="If", interfaceFieldName="f")
    if opt:
        a.update(opt)
    return el(k, a, f)


LKINDS = ["sync", "size", "id", "value", "payload", "checksum", "custom"]


def frames(maxn=3):
    iface = el("interface", {"name": "If"}, '<int name="f" type="uint8"/>' + '<int name="g" type="uint8"/>') + el("interface", {"name": "Jf"}, '<int name="h" type="uint8"/>' + '<int name="f" type="uint8"/>')
    seqs = [s for n in range(1, maxn + 1) for s in itertools.product(LKINDS, repeat=n)]
    for s in seqs:
        refs = [None] + ["L%d" % i for i in range(len(s))] + ["nope"]
        opts = []
        for i, k in enumerate(s):
            o = [{}]
            if k == "checksum":
                o = [{}] + [{a: r} for a in ("from", "until") for r in refs[1:]]
            elif k == "sync":
                o = [{}, {"seekField": "true"}] + [{a: "true", "from": r} for a in ("seekField", "verifyBeforeRead") for r in refs[1:]]
            elif k == "custom":
                o = [{}, {"semanticLayerType": "checksum"}] + [{"semanticLayerType": "checksum", a: r} for a in ("checksumFrom", "checksumUntil") for r in refs[1:]] + [{"semanticLayerType": "size"}, {"idReplacement": "true"}]
            opts.append(o)
        for c in itertools.product(*opts):
            if "payload" not in s and any(c):
                continue
            yield "frame|%s|%s" % (",".join(s), ";".join(",".join("%s=%s" % x for x in o.items()) for o in c)), "", [], [schema((iface if "value" in s else "") + el("frame", {"name": "Fr"}, "".join(layer(k, i, o) for i, (k, o) in enumerate(zip(s, c)))))]


LATTR = {"name": (["L9"], ["L0", "l1", "1x", ""]), "displayName": (["dn"], ["^S0"]), "description": (["de"], []), "field": (["I0"], ["nope", "S0", ""]), "from": (["L0"], ["L1", "nope"]), "until": (["L3"], ["L1", "nope"]), "alg": (["custom", "crc-32"], ["sum", "crc_ccitt", "CRC-16", "xor", "x", ""]), "algName": (["Alg"], ["1x", ""]), "verifyBeforeRead": (["true"], ["x"]),
         "seekField": (["true"], ["x"]), "escField": (["I0"], ["nope", ""]), "interfaces": (["If,Jf", "If"], ["nope", "Jf", "If,", ""]), "interfaceFieldName": (["g"], ["nope", "h", ""]), "pseudo": (["true"], ["x"]), "idReplacement": (["true"], ["x"]), "semanticLayerType": (["size"], ["id", "checksum", "custom", "payload", "value", "sync", "x", ""]),
         "checksumFrom": (["L0"], ["nope", "L3"]), "checksumUntil": (["L3"], ["nope", "L0"]), "xunknown": (["1"], [])}
LK = (['<escField><int name="esc" type="uint8"/></escField>'], ['<escField/>', '<escField>I0</escField>', '<field/>', '<field>I0</field>', '<field><bogus/></field>', '<int name="ff" type="uint8"/>', '<field><int name="a" type="uint8"/><int name="b" type="uint8"/></field>', '<field><int name="ff" type="uint8" semanticType="messageId"/></field>', '<escField><bogus/></escField>', '<foo/>'])


def layers():
    iface = el("interface", {"name": "If"}, '<int name="f" type="uint8"/>' + '<int name="g" type="uint8"/>') + el("interface", {"name": "Jf"}, '<int name="g" type="uint8"/>' + '<int name="f" type="uint8"/>')
    full = [("a", n, v) for n, (a, b) in LATTR.items() for v in a + b] + [("c", x, None) for x in LK[0] + LK[1]]
    core = [("a", n, v) for n, (a, b) in LATTR.items() for v in a] + [("c", x, None) for x in LK[0]]
    for k in LKINDS:
        for pos in (1, 2):
            for c in [()] + [(a,) for a in full] + list(itertools.combinations(core, 2)):
                attrs, kids = {"name": "L%d" % pos}, "<field><int name=\"F\" type=\"uint8\"/></field>" if k != "payload" else ""
                if k == "checksum":
                    attrs["alg"] = "sum"
                if k == "value":
                    attrs.update(interfaces="If", interfaceFieldName="f")
                if k == "checksum" and not any(a[1] in ("from", "until") for a in c):
                    attrs["from" if pos == 2 else "until"] = "L0" if pos == 2 else "L3"
                given = set()
                for a in c:
                    if a[0] == "c":
                        if a[1].startswith("<field") or a[1].startswith("<int"):
                            kids = ""
                        kids += a[1]
                    elif a[1] in given:
                        kids += el(a[1], {"value": a[2]})
                    else:
                        attrs[a[1]] = a[2]
                        given.add(a[1])
                        if a[1] == "field":
                            kids = ""
                x = el(k, attrs, kids)
                lst = [layer("size", 0), x, layer("payload", 3)] if pos == 1 else [layer("size", 0), layer("payload", 3), x]
                if k == "payload":
                    lst = [layer("size", 0), x]
                for d in ((None, 4, 6, 7, 8) if len(c) <= 1 else (None,)):
                    yield "layer|%s|%d|%s|%s" % (k, pos, d, akey(c)), "", [], [doc(iface + el("frame", {"name": "Fr"}, el("layers", (), *lst)), dslVersion=None if d is None else str(d))]
    for x in ("", "<layers/>", "<layers><payload name='p'/></layers><layers><payload name='p'/></layers>", "<payload name='p'/>", "<payload name='p'/><foo/>", "<layers><payload name='p'/><foo/></layers>", "<layers><payload name='p'/></layers><foo/>", "<layers><payload name='p'/></layers><payload name='q'/>", "<payload/>", "<payload name='p'><field><int name='a' type='uint8'/></field></payload>"):
        for a in ({}, {"displayName": "x"}, {"xunknown": "1"}, {"name": "1F"}, {"name": ""}):
            for d in (None, 6, 7):
                yield "frameattr|%s|%s|%s" % (x, a, d), "", [], [schema(el("frame", {"name": "Fr", "description": "d", **a}, x), dslVersion=None if d is None else str(d))]


# ------------------------------------------------------------------------------------------------ namespaces, names, schemas
def names():
    """every pair of names in every pair of kinds of element; references to them from every place"""
    mk = {"field": lambda n: el("fields", (), el("int", {"name": n, "type": "uint8", "defaultValue": "3"})), "message": lambda n: el("message", {"name": n, "id": "1"}), "message2": lambda n: el("message", {"name": n, "id": "2"}), "interface": lambda n: el("interface", {"name": n}), "frame": lambda n: el("frame", {"name": n}, '<payload name="p"/>'), "ns": lambda n: el("ns", {"name": n}, el("fields", (), el("int", {"name": "q", "type": "uint8"})))}
    for (a, fa), (b, fb) in itertools.product(mk.items(), mk.items()):
        for n1, n2 in (("Aa", "Aa"), ("Aa", "aa"), ("aA", "AA"), ("Aa", "AA"), ("Aa", "Ab")):
            yield "names|%s|%s|%s|%s" % (a, b, n1, n2), "", [], [schema(fa(n1) + fb(n2))]
            yield "names|in|%s|%s|%s|%s" % (a, b, n1, n2), "", [], [schema(el("ns", {"name": "x"}, fa(n1)) + el("ns", {"name": "x"}, fb(n2)))]
            yield "names|out|%s|%s|%s|%s" % (a, b, n1, n2), "", [], [schema(fa(n1) + el("ns", {"name": "x"}, fb(n2)))]
    for ids in itertools.product(("1", "2"), repeat=3):
        for orders in itertools.product((None, "0", "1"), repeat=3):
            for nu in (None, "true"):
                ms = [el("message", {"name": "M%d" % i, "id": ids[i], **({"order": orders[i]} if orders[i] else {})}) for i in range(3)]
                for wn, w in (("g", "".join(ms)), ("n", ms[0] + el("ns", {"name": "x"}, ms[1]) + ms[2]), ("nn", el("ns", {"name": "x"}, ms[0] + el("ns", {"name": "y"}, ms[1])) + ms[2])):
                    if wn != "g" and None in orders and orders != (None,) * 3:
                        continue
                    yield "ids|%s|%s|%s|%s" % (",".join(ids), orders, nu, wn), "", [], [schema(w, nonUniqueMsgIdAllowed=nu)]
    refs = ["q", "x.q", "x.y.q", "y.q", "Q", "x.Q", "X.q", "@s.q", "@s.x.q", "@s.x.y.q", "@S.q", "@t.q", "q.sp", "x.q.sp", "x.y.q.sp", ".q", "q.", "x..q", "@", "@s", "@s.", "x", "", "@@s.q", "x.y", "q.q", "x.@s.q"]
    qd = lambda v: el("fields", (), '<int name="q" type="uint8" defaultValue="%d"><special name="sp" val="%d"/></int>' % (v, v + 10))
    for r in refs:
        for inside in (0, 1, 2):
            use = el("fields", (), el("ref", {"name": "u1", "field": r}))
            use2 = el("fields", (), el("int", {"name": "u2", "type": "uint8", "defaultValue": r}))
            use3 = el("fields", (), el("int", {"name": "u3", "reuse": r}))
            for un, u in (("ref", use), ("val", use2), ("reuse", use3)):
                w = [qd(1) + el("ns", {"name": "x"}, qd(2), el("ns", {"name": "y"}, qd(3))) + u, qd(1) + el("ns", {"name": "x"}, el("ns", {"name": "y"}, qd(3)), qd(2), u), el("ns", {"name": "x"}, el("ns", {"name": "y"}, qd(3), u))][inside]
                yield "refs|%s|%s|%d" % (r, un, inside), "", [], [schema(w)]
    S = {"name": ["s", "1s", "", "s.t"], "displayName": ["d", ""], "id": ["0", "4294967295", "4294967296", "-1", "x"], "version": ["0", "4294967295", "4294967296", "x", ""], "dslVersion": ["0", "1", "4", "6", "7", "8", "9", "100", "x", "-1"], "endian": ["big", "LITTLE", "x", ""], "description": ["a"], "nonUniqueMsgIdAllowed": ["true", "0", "x"], "xunknown": ["1"]}
    at = [(k, v) for k, vs in S.items() for v in vs]
    for n in (1, 2):
        for c in itertools.combinations(at, n):
            if len({x[0] for x in c}) < n:
                continue
            a = {"name": "s"}
            a.update(c)
            yield "schema|" + "+".join("%s=%s" % x for x in c), "", [], [el("schema", a, el("fields", (), el("int", {"name": "f", "type": "uint16"})))]
            yield "schema|kids|" + "+".join("%s=%s" % x for x in c), "", [], [el("schema", (), *[el(k, (), v.replace("&", "")) if i % 2 else el(k, {"value": v}) for i, (k, v) in enumerate(a.items())], el("fields", (), el("int", {"name": "f", "type": "uint16"})))]
    for x in ("<foo/>", "<schema/>", "<schema name='s'/>", "<schema name='s'><foo/></schema>", "<schema name='s'><fields><foo/></fields></schema>", "<schema name='s'><fields/></schema>", "<schema name='s'><messages><int name='a' type='uint8'/></messages></schema>", "<schema name='s'><frames/></schema>", "<schema name='s'><message/></schema>",
              "<schema name='s'><messages><message name='M' id='1'/></messages><message name='N' id='2'/></schema>", "<schema name='s'><ns/></schema>", "<schema name='s'><ns name='a b'/></schema>", "<schema name='s'><ns name='x' displayName='d' description='e'/><ns name='x' description='f'/></schema>", "<schema name='s'><ns name='x'/><ns name='x' description='f' q='1'/></schema>",
              "<schema name='s'><interfaces><interface name='I'/></interfaces><interface name='J'/></schema>", "<schema name='s'><fields><int name='a' type='uint8'/></fields><fields><int name='b' type='uint8'/></fields></schema>", "<schema name='s'>text</schema>", "<schema name='s'", "", "<schema name='s'></schem>", "<schema name='s'/><schema name='t'/>",
              "<?xml version='1.0' encoding='UTF-8'?><!-- c --><schema name='s'/>", "<schema name='s'><platforms><platform/></platforms></schema>", "<schema name='s'><platforms><foo/></platforms></schema>", "<schema name='s'><platform name='a'/><platform name='a'/></schema>", "<schema name='s'><platform name='a+b'/></schema>", "<schema name='s'><platform name='1 x'/></schema>",
              "<schema name='s'><platforms><platform name='b'/><platform name='a'/></platforms><platform name='c'/></schema>", "<schema name='s'><frame/></schema>", "<schema name='s'><interface/></schema>", "<schema name='s'><ns name='x'><ns name='x'/><platform name='a'/></ns></schema>"):
        for d in (None, "4", "6"):
            yield "raw|%s|%s" % (x, d), "", [], [x if d is None else x.replace("<schema ", "<schema dslVersion='%s' " % d)]


def multi():
    """several documents: continuation of a schema, other schemas, references between them"""
    f = lambda n, ref=None: el("fields", (), el("int", {"name": n, "type": "uint8", "defaultValue": "1"}) if ref is None else el("ref", {"name": n, "field": ref}))
    heads = [{"name": "s"}, {"name": "s", "version": "5"}, {"name": "s", "version": "6"}, {"name": "s", "endian": "big"}, {}, {"name": "t"}, {"name": "t", "version": "2", "dslVersion": "4"}, {"version": "5"}, {"name": "s", "xq": "1"}, {"name": "s", "dslVersion": "4"}]
    firsts = [{"name": "s", "version": "5", "endian": "little"}, {"name": "s", "version": "5", "dslVersion": "4"}, {"name": "s", "dslVersion": "5", "xq": "2"}]
    bodies = [f("b"), f("b", "a"), f("b", "@s.a"), f("b", "@t.a"), f("a"), el("message", {"name": "M", "id": "1"}), el("platform", {"name": "p"}), f("B", "@s.A")]
    for fi, hi, bi in itertools.product(range(len(firsts)), range(len(heads)), range(len(bodies))):
        for fl in ("", "m"):
            yield "multi|%d|%d|%d|%s" % (fi, hi, bi, fl), fl, [], [el("schema", firsts[fi], f("a")), el("schema", heads[hi], bodies[bi])]
            yield "multi3|%d|%d|%d|%s" % (fi, hi, bi, fl), fl, [], [el("schema", firsts[fi], f("a")), el("schema", {"name": "t"}, f("a") + f("c", "@s.a")), el("schema", heads[hi], bodies[bi])]


FAMILIES = {"singles": singles, "bits": in_bitfield, "pairs": pairs, "reuse": reuse_pairs, "numbers": numbers, "ranges": ranges, "versions": versions, "conditions": conditions, "messages": messages, "holders": holders, "frames": frames, "layers": layers, "names": names, "multi": multi}


BYTES_SCHEMA = '''<schema name="s" id="1" version="2" endian="big"><fields><int name="I" type="uint8" defaultValue="0x1f"><special name="S" val="3"/></int>
<bitfield name="B"><int name="a" type="uint8" bitLength="3"/><set name="b" bitLength="5"><bit name="x" idx="0"/></set></bitfield></fields>
<message name="M" id="1"><ref name="r" field="I"/><string name="t" defaultValue="a&amp;b"><lengthPrefix><int name="l" type="uint8"/></lengthPrefix></string>
<optional name="o" cond="$r = 1"><list name="li" count="2"><element><enum name="e" type="int8"><validValue name="V" val="-1"/></enum></element></list></optional></message>
<frame name="F"><id name="Id"><field><int name="f" type="uint8"/></field></id><payload name="P"/></frame></schema>'''


def broken_bytes(repl=b"<>&\"' /=0A$\x00\xc3"):
    """every truncation, single byte deletion and single byte replacement of one schema"""
    b = BYTES_SCHEMA.encode()
    for i in range(len(b)):
        yield ("bytes|cut|%d" % i, "", [], [b[:i]])
        yield ("bytes|del|%d" % i, "", [], [b[:i] + b[i + 1:]])
        for r in repl:
            if b[i] != r:
                yield ("bytes|set|%d|%02x" % (i, r), "", [], [b[:i] + bytes([r]) + b[i + 1:]])


FAMILIES["bytes"] = broken_bytes
