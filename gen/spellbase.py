"""Definitions the other spellings of which are explored: (key, text, only the messages change)."""
import copy
from . import zoo, spell
from .fam import schema

GENERATE = {"mini", "layer", "kinds1", "kinds2", "extras", "textual:mini", "textual:kinds1", "textual:extras", "textual:layer"}

EXTRAS = ('<schema name="s" id="5" version="7" dslVersion="8" endian="little" nonUniqueMsgIdAllowed="true" description="Some protocol">'
          '<platforms><platform name="p1"/><platform name="p2"/></platforms>'
          '<fields><enum name="MsgId" type="uint8" semanticType="messageId"><validValue name="A" val="1"/><validValue name="B" val="2"/><validValue name="C" val="77"/><validValue name="D" val="4"/></enum><int name="Num" type="uint16" defaultValue="12" displayName="Number"><special name="S" val="0"/></int><int name="Num2" reuse="Num" defaultValue="13"/>'
          '<bundle name="Bun"><members><set name="f" length="1"><bit name="x" idx="0"/><bit name="y" idx="4"/></set><int name="m" type="int8" validRange="[-3, 4]"/><optional name="o" defaultMode="missing"><field><int name="in" type="uint8"/></field><and><cond value="$f.x"/><or><cond value="$m = 3"/><cond value="!$f.y"/></or></and></optional></members><validCond value="$m != 1"/><alias name="al" field="$m" description="Some alias"/></bundle>'
          '<bundle name="Bun2" reuse="Bun" reuseAliases="false" displayName="Other"><replace><int name="m" type="uint16"/></replace></bundle><string name="St" defaultValue="abc" encoding="ascii" zeroTermSuffix="true"/></fields>'
          '<interface name="Ifc" description="Main interface"><fields><int name="v" type="uint8" semanticType="version"/><set name="fl" length="1"><bit name="b" idx="2"/></set></fields><alias name="ia" field="$fl"/></interface><interface name="Ifc2" copyFieldsFrom="Ifc"/>'
          '<message name="MA" id="MsgId.A" order="0" sender="client" platforms="+p1" displayName="The first" description="Long text" customizable="true"><fields><int name="a" type="uint8" defaultValue="Num"/><ref name="b" field="Bun" displayName="x"/></fields><alias name="al2" field="$a"/></message>'
          '<message name="MB" id="MsgId.A" order="1" sender="server" platforms="-p2" sinceVersion="2" deprecated="5" removed="true" validateMinLength="2" failOnInvalid="true"><fields><int name="a" type="uint16" sinceVersion="2"/></fields><construct value="%v = 3"/></message>'
          '<message name="MC" id="MsgId.B" copyFieldsFrom="MA" copyFieldsAliases="true"><replace><int name="a" type="uint32"/></replace></message>'
          '<message name="MD" id="MsgId.C" reuse="MB" reuseCode="false" deprecated="6" validateMinLength="0"/>'
          '<message name="ME" id="MsgId.D"><fields><set name="f" length="1"><bit name="x" idx="0"/></set><int name="q" type="uint8"/></fields><readCond><or><readCond value="%fl.b"/><and><readCond value="%v &gt;= 5"/><readCond value="!%fl.b"/></and></or></readCond><validCond value="$q &lt; 100"/></message>'
          '<frame name="Fr" description="Frame"><sync name="Y"><int name="YF" type="uint16" defaultValue="0xab" fixedValue="true"/></sync><size name="S"><int name="SF" type="uint16" serOffset="2"/></size>'
          '<id name="I"><ref name="IF" field="MsgId"/></id><value name="V" interfaces="Ifc, Ifc2" interfaceFieldName="v" pseudo="true"><int name="VF" type="uint8"/></value><value name="V2" interfaceFieldName="fl"><field><set name="F2" length="1"><bit name="b" idx="2"/></set></field></value><payload name="P"/><checksum name="C" alg="crc-ccitt" from="S" verifyBeforeRead="true"><field><int name="CF" type="uint16" displayName="crc"/></field></checksum></frame>'
          '<ns name="n" description="Inner"><fields><ref name="R" field="Num"/></fields><message name="MI" id="90"><ref name="r" field="n.R"/></message></ns></schema>')


def kind(i, t):
    return zoo.doc('<message name="M0" id="0">%s</message>' % t.replace("{n}", zoo.name(i)) + zoo.IFC)


def textual(doc, pick):
    """everything that can be is in children"""
    last = None
    for label, r in spell.alls(spell.parse(doc)):
        if label == "children|everywhere|%d" % pick:
            last = r
    return spell.text(last)


def bases(thorough):
    msg = [(i, x[0], x[1]) for i, x in enumerate(zoo.K) if "msg" not in x[2]]
    bit = [(i, x[0], x[1]) for i, x in enumerate(zoo.K) if "bit" not in x[2]]
    for i, k, t in msg:
        yield k, kind(i, t), True
        yield "textual:" + k, textual(kind(i, t), 1), True
    for i, k, t in bit:
        d = zoo.doc('<message name="M0" id="0"><bitfield name="b">%s<int name="rest" type="uint8" bitLength="%d"/></bitfield></message>' % (t.replace("{n}", "x"), 8 - int(t.split('bitLength="')[1][0]) or 8) + zoo.IFC)
        yield k, d, True
    for k, d in [("mini", zoo.mini()[0][1]), ("extras", EXTRAS)] + [(k, d[0][1]) for k, d in zoo.zoo() if k in ("layer", "ns")]:
        yield k, d, False
        yield "textual:" + k, textual(d, 1), False
        yield "textual:last:" + k, textual(d, 3), False
    half = len(msg) // 2
    for n, part in (("kinds1", msg[:half]), ("kinds2", msg[half:])):
        d = zoo.doc(zoo.msgs([t.replace("{n}", zoo.name(i)) for i, _, t in part]) + zoo.IFC)
        yield n, d, "whole"
        yield "textual:" + n, textual(d, 1), "whole"
    if thorough:
        for key, docs in zoo.zoo():
            if len(docs) == 1:
                yield "zoo:" + key, docs[0][1], False
