"""A small protocol that makes every generator write all the kinds of files it knows, and the custom code directories for it."""

S1 = '''<schema name="s" endian="little" version="3"><platforms><platform name="P1"/></platforms>
<fields><enum name="Ids" type="uint8" semanticType="messageId"><validValue name="A" val="1"/><validValue name="B" val="2"/></enum><int name="F" type="uint8"/><set name="St" length="1"><bit name="b" idx="0"/></set></fields>
<interface name="If"><int name="ver" type="uint8" semanticType="version"/></interface>
<message name="A" id="1" platforms="+P1"><ref field="F" name="p"/><string name="str"><lengthPrefix><int name="l" type="uint8"/></lengthPrefix></string></message></schema>'''
S2 = '''<schema><frame name="Fr"><layers><size name="Size"><field><int name="sz" type="uint16"/></field></size><id name="Id" field="Ids"/><payload name="Data"/></layers></frame>
<ns name="sub"><fields><bundle name="Bn"><members><int name="x" type="int8"/><optional name="o"><field><float name="fl" type="float"/></field></optional></members></bundle></fields>
<message name="B" id="2" sender="client"><list name="l"><element><ref field="sub.Bn" name="e"/></element></list><variant name="v"><members><int name="m1" type="uint8"/><data name="m2" length="2"/></members></variant><bitfield name="bf"><members><int name="b1" type="uint8" bitLength="3"/><enum name="b2" type="uint8" bitLength="5"><validValue name="q" val="0"/></enum></members></bitfield></message></ns></schema>'''


def inputs():
    """{relative name: bytes} of the input files without custom code"""
    return {"in/s1.xml": S1.encode(), "in/s2.xml": S2.encode(), "lst": b"s1.xml\ns2.xml\n", "ml": b"A\nsub.B\n"}


TOOLS = ("commsdsl2comms", "commsdsl2c", "commsdsl2emscripten", "commsdsl2swig", "commsdsl2latex", "commsdsl2test", "commsdsl2tools_qt")


def args(tool, extra=()):
    a = ["-i", "lst", "-p", "in", "-o", "o"]
    if tool == "commsdsl2comms":
        a += ["--extra-messages-bundle", "X@ml"]
    if tool in ("commsdsl2emscripten", "commsdsl2swig"):
        a += ["--messages-list", "ml"]
    if tool == "commsdsl2tools_qt":
        a += ["--protocol", "Fr:If:nm:some"]
    return a + list(extra)
