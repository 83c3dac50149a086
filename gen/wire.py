"""Families of schemas for the properties about what generated code does. A family yields (key, globals, message attributes, message content); cases are packed into definitions of several messages."""
import itertools
from gen.fam import el, q, schema
from model import cdsl
from vlib import wire as vw

N = 32   # messages per definition

INTS = [("int8", 1, 1), ("uint8", 1, 0), ("int16", 2, 1), ("uint16", 2, 0), ("int32", 4, 1), ("uint32", 4, 0), ("int64", 8, 1), ("uint64", 8, 0)]


def I(n, t="uint8", **a): return el("int", dict({"name": n, "type": t}, **{k: v for k, v in a.items() if v is not None}))
def Z(): return I("z")


def ints():
    for t, w, sg in INTS:
        for ln in [None] + [str(x) for x in range(1, w + 1) if w > 1]:
            for en in (None, "big"):
                for off in (None, "-3", "100", "2000" if w > 1 else "7"):
                    for sx in ((None, "false") if sg and ln and int(ln) < w else (None,)):
                        a = {"length": ln, "endian": en, "serOffset": off, "signExt": sx}
                        if off == "-3" and not sg:
                            a["defaultValue"] = "5"
                        elif en:
                            a["defaultValue"] = "1"
                        yield "%s,%s,%s,%s,%s" % (t, ln, en, off, sx), "", lambda n, t=t, a=a: I(n, t, **a)
    for t in ("intvar", "uintvar"):
        for ln in [None] + [str(x) for x in range(1, 10)]:
            for en in (None, "big"):
                for off in (None, "-3", "100"):
                    a = {"length": ln, "endian": en, "serOffset": off, "defaultValue": None if off else "6" if en else "-6" if t[0] == "i" else "9"}
                    yield "%s,%s,%s,%s" % (t, ln, en, off), "", lambda n, t=t, a=a: I(n, t, **a)


def enums():
    for t, w, sg in INTS + [("intvar", 8, 1), ("uintvar", 8, 0)]:
        vals = [("A", "0"), ("B", "1"), ("C", "100")] + ([("D", "-2"), ("E", "-100")] if sg else [("D", "200")])
        for ln in [None] + [str(x) for x in (1, 2, 3, 5, 7, 8) if x <= w and w > 1]:
            for en in (None, "big"):
                a = {"name": None, "type": t, "length": ln, "endian": en, "defaultValue": "D" if en else None}
                v = vals if ln != "1" or "var" not in t else [x for x in vals if -50 < int(x[1]) < 60 or sg == 0 and int(x[1]) < 120]
                if ln == "1" and "var" in t:
                    a["defaultValue"] = "B"
                yield "%s,%s,%s" % (t, ln, en), "", lambda n, a=a, v=v: el("enum", [(k, x) for k, x in dict(a, name=n).items() if x is not None], *[el("validValue", {"name": x, "val": y}) for x, y in v])


def sets():
    for ln in range(1, 9):
        for en in (None, "big"):
            for d, bits in ((None, ((0, "true"), (ln * 8 - 1, "true"))), ("true", ((1, "false"), (ln * 8 - 2, "false"))), (None, ())):
                yield "%d,%s,%s,%s" % (ln, en, d, bits), "", lambda n, ln=ln, en=en, d=d, bits=bits: el("set", [(k, x) for k, x in {"name": n, "length": str(ln), "endian": en, "defaultValue": d}.items() if x], *[el("bit", {"name": "b%d" % i, "idx": str(i), "defaultValue": v}) for i, v in bits])
    for t in ("uint8", "uint16", "uint32", "uint64"):
        yield t, "", lambda n, t=t: el("set", {"name": n, "type": t}, el("bit", {"name": "b", "idx": "3"}))


def floats():
    for t in ("float", "double"):
        for en in (None, "big"):
            for d in (None, "1.25", "-0.1", "nan", "inf", "-inf", "3e38", "1e-40", "0"):
                yield "%s,%s,%s" % (t, en, d), "", lambda n, t=t, en=en, d=d: el("float", [(k, x) for k, x in {"name": n, "type": t, "endian": en, "defaultValue": d}.items() if x])


def numbers():
    """every kind of number; three in a message"""
    for nm, g in (("int", ints), ("enum", enums), ("set", sets), ("float", floats)):
        part = []
        for k, gl, f in g():
            part.append((k, f))
            if len(part) == 3:
                yield nm + " " + " ".join(x[0] for x in part), "", {}, "".join(f("f%d" % i) for i, (_, f) in enumerate(part))
                part = []
        if part:
            yield nm + " " + " ".join(x[0] for x in part), "", {}, "".join(f("f%d" % i) for i, (_, f) in enumerate(part))


BFK = [("u", lambda n, b: el("int", {"name": n, "type": "uint%d" % sz(b), "bitLength": str(b), "defaultValue": "1"})), ("s", lambda n, b: el("int", {"name": n, "type": "int%d" % sz(b), "bitLength": str(b), "defaultValue": "-1" if b > 1 else "0"})),
       ("o", lambda n, b: el("int", {"name": n, "type": "uint%d" % sz(b), "bitLength": str(b), "serOffset": "-1", "defaultValue": "1"})),
       ("e", lambda n, b: el("enum", {"name": n, "type": "uint%d" % sz(b), "bitLength": str(b)}, '<validValue name="V0" val="0"/><validValue name="V1" val="1"/>')),
       ("t", lambda n, b: el("set", {"name": n, "bitLength": str(b)}, el("bit", {"name": "B", "idx": str(b - 1), "defaultValue": "true"}))),
       ("x", lambda n, b: el("int", {"name": n, "type": "int%d" % sz(b), "bitLength": str(b), "signExt": "false"}))]
def sz(b): return 8 if b <= 8 else 16 if b <= 16 else 32 if b <= 32 else 64


def bitfields():
    splits = [(1, 7), (7, 1), (4, 4), (3, 5), (1, 2, 5), (2, 3, 3), (1, 1, 1, 5), (8,), (1, 15), (15, 1), (8, 8), (3, 13), (5, 6, 5), (16,), (4, 12, 8), (9, 9, 6), (24,), (23, 1), (1, 31), (16, 16), (31, 1), (17, 15), (4, 24, 4), (40,), (33, 7), (48,), (1, 55), (56,), (32, 32), (63, 1), (1, 62, 1), (64,), (20, 20, 24), (8, 16, 32, 8)]
    kinds = dict(BFK)
    for en in (None, "big"):
        for sp in splits:
            for pat in ("u", "s", "usue", "teos", "xust", "eute"):
                if len(sp) == 1 and pat != "s" and pat != "teos":
                    continue
                ms = []
                for i, b in enumerate(sp):
                    k = pat[i % len(pat)]
                    if b == 1 and k in "seox":
                        k = "u" if k != "e" else "e"
                    ms.append(kinds[k]("m%d" % i, b))
                yield "bf %s %s %s" % (en, sp, pat), "", {}, el("bitfield", [(k, x) for k, x in {"name": "f", "endian": en}.items() if x], *ms) + Z()


PFX = [("u8", I("lp")), ("u16b", I("lp", "uint16", endian="big")), ("u8o", I("lp", serOffset="2")), ("v", I("lp", "uintvar")), ("u24", I("lp", "uint32", length="3")), ("u8m", I("lp", validMax="2")), ("i16", I("lp", "int16")), ("u64", I("lp", "uint64"))]
GP = '<fields><int name="GL" type="uint16" endian="big"/><string name="GS" lengthPrefix="GL" defaultValue="gs"/><int name="GI" type="uint8" defaultValue="9"/></fields>'


def strings():
    for tag, defs in (("string", (None, "abc", "a")), ("data", (None, "01 02 ab"))):
        for d in defs:
            def F(n="f", kids="", **a): return el(tag, [(k, x) for k, x in dict({"name": n, "defaultValue": d}, **a).items() if x is not None], kids)
            for nm, p in PFX:
                yield "%s %s pfx %s" % (tag, d, nm), "", {}, F(kids="<lengthPrefix>%s</lengthPrefix>" % p) + Z()
            yield "%s %s pfx ref" % (tag, d), GP, {}, F(lengthPrefix="GL") + Z()
            yield "%s %s rest" % (tag, d), "", {}, Z() + F()
            yield "%s %s detached" % (tag, d), "", {}, I("p") + F(lengthPrefix="$p") + Z()
            yield "%s %s detached far" % (tag, d), "", {}, I("p", "uint16", serOffset="1") + I("q") + F(lengthPrefix="$p") + Z()
            yield "%s %s two" % (tag, d), "", {}, F("f", kids="<lengthPrefix>%s</lengthPrefix>" % PFX[0][1]) + F("g", lengthPrefix=None)
            for ln in ("1", "2", "3", "5"):
                if not d or len(d.replace(" ", "")) // (2 if tag == "data" else 1) <= int(ln):
                    yield "%s %s fixed %s" % (tag, d, ln), "", {}, F(length=ln) + Z()
            if tag == "string":
                yield "%s %s zero" % (tag, d), "", {}, F(zeroTermSuffix="true") + Z()
    yield "string ref", GP, {}, '<ref name="f" field="GS"/>' + Z()
    yield "data detached in bitfield", "", {}, '<bitfield name="b"><int name="n" type="uint8" bitLength="3"/><int name="o" type="uint8" bitLength="5"/></bitfield><data name="f" lengthPrefix="$b.n"/>' + Z()
    yield "data detached in bundle", "", {}, '<bundle name="b"><int name="o" type="uint8"/><int name="n" type="uint8"/></bundle><data name="f" lengthPrefix="$b.n"/>' + Z()
    yield "bundle data detached", "", {}, '<bundle name="b"><int name="n" type="uint8"/><data name="f" lengthPrefix="$n"/><int name="o" type="uint8"/></bundle>' + Z()


ELS = [("u8", I("e")), ("i16b", I("e", "int16", endian="big")), ("u24", I("e", "uint32", length="3", serOffset="1")), ("var", I("e", "uintvar")), ("en", '<enum name="e" type="uint8"><validValue name="A" val="1"/></enum>'), ("set", '<set name="e" length="1"><bit name="B" idx="1"/></set>'), ("fl", '<float name="e" type="float"/>'),
       ("str", '<string name="e"><lengthPrefix>%s</lengthPrefix></string>' % I("lp")), ("zs", '<string name="e" zeroTermSuffix="true"/>'), ("bu", '<bundle name="e"><int name="a" type="uint8"/><int name="b" type="uint16"/></bundle>'), ("bf", '<bitfield name="e"><int name="a" type="uint8" bitLength="3"/><int name="b" type="uint8" bitLength="5"/></bitfield>'),
       ("ls", '<list name="e" count="2"><int name="x" type="uint8"/></list>'), ("rest", '<string name="e"/>'), ("vb", '<bundle name="e"><int name="a" type="uint8"/><string name="b"><lengthPrefix>%s</lengthPrefix></string></bundle>' % I("lp")), ("opt", '<optional name="e"><int name="x" type="uint8"/></optional>'),
       ("var2", '<variant name="e"><int name="a" type="uint8" defaultValue="1" fixedValue="true" failOnInvalid="true" validValue="1"/><int name="b" type="uint16"/></variant>')]


def lists():
    def P(tag, x): return "<%s>%s</%s>" % (tag, x, tag)
    forms = [("rest", "", "", 0), ("count0", "", ' count="3"', 1), ("count1", "", ' count="1"', 1), ("cp", P("countPrefix", I("cp")), "", 1), ("cp16", P("countPrefix", I("cp", "uint16", endian="big", serOffset="1")), "", 1), ("cpv", P("countPrefix", I("cp", "uintvar")), "", 1), ("lp", P("lengthPrefix", I("lp")), "", 1),
             ("lp16", P("lengthPrefix", I("lp", "uint16")), "", 1), ("lpo", P("lengthPrefix", I("lp", serOffset="3")), "", 1), ("cpm", P("countPrefix", I("cp", validMax="2")), "", 1),
             ("ts", P("termSuffix", I("ts", defaultValue="0xfe")), "", 1), ("ts16", P("termSuffix", I("ts", "uint16", defaultValue="0x1ff")), "", 1), ("det", "", ' countPrefix="$p"', 2), ("detl", "", ' lengthPrefix="$p"', 2)]
    eps = [("", "", ""), ("ep", P("elemLengthPrefix", I("ep")), ""), ("epf", P("elemLengthPrefix", I("ep")), ' elemFixedLength="true"'), ("ep16", P("elemLengthPrefix", I("ep", "uint16", endian="big", serOffset="1")), ""), ("epv", P("elemLengthPrefix", I("ep", "uintvar")), ""), ("epd", "", ' elemLengthPrefix="$r" elemFixedLength="true"')]
    for en, e in ELS:
        for fn, pre, at, trail in forms:
            for pn, ep, eat in eps:
                if en == "rest" and not pn:
                    continue
                if pn and "f" in pn or pn == "epd":
                    if en not in ("u8", "i16b", "bu", "bf", "fl"):
                        continue
                if pn == "epf" and fn[:5] != "count":
                    continue   # whether COMMS writes the element length of an empty list cannot be told without COMMS
                if pn in ("ep16", "epv") and en not in ("u8", "str", "bu", "rest"):
                    continue
                if fn in ("cp16", "cpv", "lp16", "lpo", "cpm", "ts16", "count1") and en not in ("u8", "i16b", "str", "bu", "var2"):
                    continue
                body = '<list name="f"%s%s><element>%s</element>%s%s</list>' % (at, eat, e, pre, ep)
                yield "list %s %s %s" % (en, fn, pn), "", {}, (I("p") if trail == 2 else "") + (I("r") if pn == "epd" else "") + body + (Z() if trail else "")


def keyed(*ks):
    """variant members starting with keys of their own attributes"""
    out = []
    for i, (v, kw) in enumerate(ks):
        a = {"type": "uint16", "defaultValue": v, "validValue": v, "fixedValue": "true", "failOnInvalid": "true"}
        a.update(kw)
        out.append('<bundle name="%s"><int name="k" %s/><int name="v%d" type="uint%d"/></bundle>' % ("abc"[i], " ".join('%s="%s"' % x for x in a.items() if x[1] is not None), i, 8 << i))
    return tuple(out)


KEYV = [("", {}), ("big", {"endian": "big"}), ("t8", {"type": "uint8"}), ("i16", {"type": "int16"}), ("len", {"type": "uint32", "length": "2"}), ("off", {"serOffset": "1"}), ("range", {"validRange": "[1,3]"}), ("nofail", {"failOnInvalid": None}), ("nofix", {"fixedValue": None}), ("novalid", {"validValue": None}),
        ("var", {"type": "uintvar", "length": "2"}), ("sx", {"type": "int16", "length": "1", "signExt": "false"}), ("neg", {"type": "int16"}), ("avail", {"availableLengthLimit": "true"})]


def variants():
    for i, (n1, a1) in enumerate(KEYV):
        for n2, a2 in KEYV[i:]:
            for v in (("1", "2"), ("1", "1"), ("0x100", "1")):
                if v[0] == "0x100" and {"t8", "sx"} & {n1, n2} or v != ("1", "2") and "range" in (n1, n2):
                    continue
                yield "variant key %s %s %s" % (n1, n2, "".join(v)), "", {}, '<variant name="f">%s</variant>' % "".join(keyed((v[0], a1), (v[1], a2))) + Z()
    A = '<int name="k" type="uint8" defaultValue="%s" validValue="%s" fixedValue="true" failOnInvalid="true"%s/>'
    for n, last in (("str", '<bundle name="z"><string name="k" length="2"/></bundle>'), ("enum", '<bundle name="z"><enum name="k" type="uint8"><validValue name="A" val="0"/></enum></bundle>'), ("set", '<bundle name="z"><set name="k" length="1"/></bundle>'),
                    ("float", '<bundle name="z"><float name="k" type="float"/></bundle>'), ("ref", '<bundle name="z"><ref name="k" field="K"/></bundle>'), ("list", '<bundle name="z"><list name="k" element="K"/></bundle>'), ("rb", '<ref name="z" field="KB"/>'), ("int", '<int name="z" type="uint8"/>'), ("opt", '<optional name="z" defaultMode="tentative" field="K"/>'),
                    ("pseudo", '<bundle name="z"><int name="k" type="uint8" pseudo="true"/><int name="v" type="uint16"/></bundle>'), ("u16", '<bundle name="z"><int name="k" type="uint16"/></bundle>'), ("off", '<bundle name="z"><int name="k" type="uint8" serOffset="1"/></bundle>'), ("int8", '<bundle name="z"><int name="k" type="int8"/><data name="d"/></bundle>'),
                    ("avail", '<bundle name="z"><int name="k" type="uint8" availableLengthLimit="true"/></bundle>'), ("same", '<bundle name="z"><int name="k" type="uint8"/></bundle>')):
        yield "variant last " + n, '<fields><int name="K" type="uint8"/><bundle name="KB"><int name="k" type="uint8"/></bundle></fields>', {}, '<variant name="f"><bundle name="a">%s<int name="v" type="uint8"/></bundle><bundle name="b">%s<int name="v" type="uint16"/></bundle>%s</variant>' % (A % (1, 1, ""), A % (2, 2, ""), last)
    R = '<bundle name="%s">%s%s</bundle>'
    for n, x in (("cnt", '<int name="n" type="uint8"/><list name="l" countPrefix="$n"><element><int name="e" type="uint8"/></element></list>'), ("len", '<int name="n" type="uint8"/><data name="l" lengthPrefix="$n"/>'), ("cond", '<set name="n" length="1"><bit name="B" idx="0"/></set><optional name="o"><cond value="$n.B"/><field><int name="v" type="uint8"/></field></optional>'),
                 ("keycond", '<int name="n" type="uint8"/><optional name="o"><cond value="$k = 1"/><field><int name="v" type="uint8"/></field></optional>'), ("sem", '<int name="n" type="uint8" semanticType="length"/><int name="v" type="uint8"/>')):
        yield "variant member " + n, "", {}, '<variant name="f">%s%s</variant>' % (R % ("a", A % (1, 1, ""), x), R % ("b", A % (2, 2, ""), x)) + Z()
        yield "variant member last " + n, "", {}, '<variant name="f">%s%s</variant>' % (R % ("a", A % (1, 1, ""), x), R % ("z", '<int name="k" type="uint8"/>', x)) + Z()
        yield "variant member ref " + n, '<fields>%s%s</fields>' % (R % ("A" + n, A % (1, 1, ""), x), R % ("B" + n, A % (2, 2, ""), x)), {}, '<variant name="f"><ref name="a" field="A%s"/><ref field="B%s"/></variant>' % (n, n) + Z()
    yield "variant keys are lengths", "", {}, '<variant name="f">%s%s</variant>' % (R % ("a", A % (1, 1, ' semanticType="length"'), '<int name="v" type="uint8"/>'), R % ("b", A % (2, 2, ' semanticType="length"'), '<int name="v" type="uint8"/>'))
    for a in KEYV:
        yield "variant key3 " + a[0], "", {}, '<variant name="f">%s</variant>' % "".join(keyed(("1", {}), ("2", {}), ("3", a[1])))


def composites():
    u = I
    yield "bundle len", "", {}, '<bundle name="f"><int name="a" type="uint8" semanticType="length"/><int name="b" type="uint16"/><string name="c"/></bundle>' + Z()
    yield "bundle len mid", "", {}, '<bundle name="f"><int name="k" type="uint8" defaultValue="3"/><int name="a" type="uint16" semanticType="length" endian="big"/><int name="b" type="uint8"/><data name="c"/></bundle>' + Z()
    yield "bundle len off", "", {}, '<bundle name="f"><int name="a" type="uint8" semanticType="length" serOffset="1"/><data name="c"/></bundle>' + Z()
    yield "bundle len nested", "", {}, '<bundle name="f"><int name="a" type="uint8" semanticType="length"/><bundle name="i"><int name="b" type="uint8" semanticType="length"/><data name="c"/></bundle><int name="d" type="uint8"/></bundle>' + Z()
    yield "bundle nested", "", {}, '<bundle name="f"><bundle name="a"><int name="x" type="uint8"/><bundle name="y"><int name="u" type="uint16"/></bundle></bundle><bitfield name="b"><int name="x" type="uint8" bitLength="2"/><set name="y" bitLength="6"/></bitfield></bundle>' + Z()
    yield "bundle plain", "", {}, '<bundle name="f"><int name="a" type="uint8"/><int name="b" type="uint16"/></bundle>' + Z()
    yield "empty", "", {}, ""
    for k, mm in (("keys", ('<bundle name="a"><int name="k" type="uint8" defaultValue="1" validValue="1" fixedValue="true" failOnInvalid="true"/><int name="v" type="uint8"/></bundle>', '<bundle name="b"><int name="k" type="uint8" defaultValue="2" validValue="2" fixedValue="true" failOnInvalid="true"/><string name="v"/></bundle>',
                            '<bundle name="c"><int name="k" type="uint8" defaultValue="0x80" validValue="0x80" fixedValue="true" failOnInvalid="true"/><int name="v" type="uint16"/><int name="w" type="uint8"/></bundle>')),
                  ("keys16", ('<bundle name="a"><int name="k" type="uint16" endian="big" defaultValue="1" validValue="1" fixedValue="true" failOnInvalid="true"/></bundle>', '<bundle name="b"><int name="k" type="uint16" endian="big" defaultValue="0x100" validValue="0x100" fixedValue="true" failOnInvalid="true"/><int name="v" type="uint8"/></bundle>')),
                  ("keysdup", ('<bundle name="a"><int name="k" type="uint8" defaultValue="1" validValue="1" fixedValue="true" failOnInvalid="true"/><int name="v" type="uint16"/></bundle>', '<bundle name="b"><int name="k" type="uint8" defaultValue="1" validValue="1" fixedValue="true" failOnInvalid="true"/></bundle>')),
                  ("keyslen", ('<bundle name="a"><int name="k" type="uint8" defaultValue="1" validValue="1" fixedValue="true" failOnInvalid="true"/><int name="l" type="uint8" semanticType="length"/><int name="v" type="uint16"/></bundle>', '<bundle name="b"><int name="k" type="uint8" defaultValue="2" validValue="2" fixedValue="true" failOnInvalid="true"/><int name="l" type="uint8" semanticType="length"/><string name="v"/></bundle>')),
                  ("keyscatch", ('<bundle name="a"><int name="k" type="uint8" defaultValue="1" validValue="1" fixedValue="true" failOnInvalid="true"/></bundle>', '<bundle name="b"><int name="k" type="uint8" defaultValue="2" validValue="2" fixedValue="true" failOnInvalid="true"/><int name="v" type="uint8"/></bundle>', '<bundle name="o"><int name="k" type="uint8"/><data name="v"/></bundle>')),
                  ("enumkeys", ('<bundle name="a"><ref name="k" field="K" defaultValue="A" validValue="A"/></bundle>', '<bundle name="b"><int name="k" type="uint8"/></bundle>')),
                  ("ints", (u("a", "uint32"), u("b", "uint16"), u("c"))), ("range", (u("a", validMax="5", failOnInvalid="true"), u("b", "uint16", validMin="0x200", failOnInvalid="true"), u("c", "int8"))),
                  ("mixed", (u("a", "uint8", validValue="1", failOnInvalid="true"), '<string name="b"><lengthPrefix>%s</lengthPrefix></string>' % u("lp"), '<bundle name="c"><int name="x" type="uint8"/></bundle>')), ("empty", ())):
        if k == "empty":
            continue
        for d in (None,) + tuple(str(i) for i in range(len(mm))):
            a = ' defaultMember="%s"' % d if d is not None else ""
            yield "variant %s %s" % (k, d), '<fields><int name="K" type="uint8"/></fields>' if k == "enumkeys" else "", {}, '<variant name="f"%s>%s</variant>' % (a, "".join(mm)) + Z()
    for m in ("tentative", "exists", "missing"):
        for ik, inn in (("u8", u("o")), ("u16", u("o", "uint16", defaultValue="7")), ("str", '<string name="o" zeroTermSuffix="true"/>'), ("bu", '<bundle name="o"><int name="a" type="uint8"/><int name="b" type="uint8"/></bundle>'), ("inv", u("o", validRange="[1,5]", failOnInvalid="true")), ("val", u("o", validRange="[1,5]"))):
            for x in ("", ' missingOnReadFail="true"', ' missingOnInvalid="true"'):
                for tr in (0, 1):
                    yield "optional %s %s %s %d" % (m, ik, x, tr), "", {}, '<optional name="f" defaultMode="%s"%s>%s</optional>' % (m, x, inn) + (Z() if tr else "")
    yield "optional two", "", {}, '<optional name="f"><int name="o" type="uint8"/></optional><optional name="g"><int name="o" type="uint16"/></optional>'
    yield "optional field ref", GP, {}, '<optional name="f" field="GI" defaultMode="exists"/><optional name="g" field="GS"/>'
    yield "refs", GP, {}, '<ref name="f" field="GI"/><ref field="GL"/><ref name="g" field="GS"/><list name="l" element="GI" count="2"/>'
    yield "ref bitfield", '<fields><int name="G3" type="uint8" bitLength="3" defaultValue="2"/><bitfield name="GB"><ref name="a" field="G3" bitLength="3"/><ref name="b" field="G3" bitLength="5"/></bitfield></fields>', {}, '<ref name="f" field="GB"/><bitfield name="g"><ref field="G3" name="x" bitLength="4"/><int name="y" type="uint8" bitLength="4"/></bitfield>'
    yield "fixed value", "", {}, u("f", defaultValue="5", fixedValue="true") + u("g", defaultValue="5", fixedValue="true", validValue="5", failOnInvalid="true") + '<set name="s" length="1" defaultValue="true" fixedValue="true"/>' + Z()
    yield "pseudo", "", {}, u("f", defaultValue="5", pseudo="true") + '<optional name="g"><cond value="$f = 5"/><field><int name="o" type="uint8"/></field></optional>' + Z()
    yield "avail", "", {}, u("f", "uint32", availableLengthLimit="true")
    yield "avail big", "", {}, Z() + u("f", "uint64", availableLengthLimit="true", endian="big")
    yield "avail signed", "", {}, Z() + u("f", "int32", availableLengthLimit="true", length="3")
    yield "avail set", "", {}, '<set name="f" length="4" availableLengthLimit="true"><bit name="B" idx="20"/></set>'
    yield "avail enum", "", {}, '<enum name="f" type="uint16" availableLengthLimit="true"><validValue name="A" val="5"/></enum>'
    yield "version field", "", {}, u("f", semanticType="version") + Z()
    yield "min length", "", {"validateMinLength": "2"}, u("f") + u("g")


C01 = [("numbers", numbers), ("bitfields", bitfields), ("strings", strings), ("lists", lists), ("composites", composites), ("variants", variants)]


def doc(cases, name="s", first=1, **attrs):
    """one schema from several cases; globals that cases share are emitted once"""
    gl = []
    for c in cases:
        if c[1] and c[1] not in gl:
            gl.append(c[1])
    return schema("".join(gl) + "".join(el("message", dict({"name": "M%d" % i, "id": str(first + i), "displayName": "M%d" % i}, **c[2]), c[3]) for i, c in enumerate(cases)), name=name, **attrs)


def legal(c, extra="", **attrs):
    try:
        cdsl.Protocol().load([doc([(c[0], c[1] + extra, c[2], c[3])], **attrs).encode()])
        return None
    except cdsl.Reject as e:
        return str(e)


def batches(fams, n=N, note=None, **kw):
    out = []
    for fn, g in fams:
        for endian in (("little", "big") if fn in ("composites",) else ("little",)):
            part, k = [], 0
            def flush():
                nonlocal part, k
                if part:
                    b = vw.Batch("%s|%s|%d" % (fn, endian, k), [("s.xml", doc(part, endian=endian))], **kw)
                    b.cases = [("%s|%s" % (fn, c[0]), "M%d" % i, None) for i, c in enumerate(part)]
                    out.append(b)
                    k += 1
                    part = []
            for c in g():
                why = legal(c, endian=endian)
                if why:
                    if note is not None:
                        note.append((fn, c[0], why))
                    continue
                part.append(c)
                if len(part) >= n:
                    flush()
            flush()
    return out


# ---------------------------------------------------------------- inputs
A10 = ("00", "01", "02", "03", "05", "7f", "80", "81", "fe", "ff")
A4 = ("00", "01", "02", "ff")
TAIL = ("d", "V", "l", "w", "f", "d", "l", "w")


def strings_of(alpha, n): return ("".join(x) for x in itertools.product(alpha, repeat=n))


def mutate(h):
    """every truncation, every byte replaced, one byte more"""
    out = [h[:i] for i in range(0, len(h), 2)] + [h + "00", h + "01", h + "ffff"]
    for i in range(0, min(len(h), 24), 2):
        b = int(h[i:i + 2], 16)
        for v in {0, 1, 0xff, b ^ 0x80, (b + 1) & 0xff, (b - 1) & 0xff}:
            if v != b:
                out.append(h[:i] + "%02x" % v + h[i + 2:])
    return out


def assigns(env, m, depth=2, start=(), cap=400):
    """assignments reached by up to depth steps from the initial state: every settable place, every interesting value; later steps continue below or after the earlier ones"""
    from model import wire as mw
    out, front = [], [(tuple(start), "")]
    for _ in range(depth):
        nxt = []
        for pre, last in front:
            r = mw.Run(env, m)
            for o in pre:
                r.op(o)
            for p, n in mw.leaves(r.m.m):
                if key(p) < key(last):
                    continue
                vs = mw.values(n)
                if pre and not p.startswith(last) and not any(o[0] == "s" and p.startswith(o[1:].partition("=")[0] + ".") for o in pre) and len(vs) > 4:
                    vs = vs[:1] + vs[-1:]
                for v in vs:
                    s = "s%s=%s" % (p, v)
                    if s not in pre:
                        nxt.append((pre + (s,), p))
            if len(out) + len(nxt) > cap:
                break
        out += [x[0] for x in nxt]
        front = nxt
        if len(out) > cap:
            break
    return out[:cap]


def key(p): return [int(x) for x in p.split(".")] if p else []


def wire_inputs(env, m, extra=None, depth=2, pre=(), cap=300):
    """initial state, assignments, short byte strings, and mutations of what the assignments write"""
    from model import wire as mw
    pre = list(pre)
    yield pre + ["i"]
    yield pre + list(TAIL) + ["c"]
    seen = set()
    for a in assigns(env, m, depth, pre, cap):
        yield list(a) + list(TAIL) + ["c"]
        r = mw.Run(env, m)
        try:
            for o in a:
                r.op(o)
            h = r.m.write().hex()
        except mw.Unspecified:
            continue
        if len(seen) < 12 and len(h) <= 64:
            seen.add(h)
        elif len(h) <= 64:
            yield pre + ["r" + h] + list(TAIL)
    for h in sorted(seen):
        for x in [h] + mutate(h):
            yield pre + ["r" + x] + list(TAIL)
    r = mw.Run(env, m)
    for n, alpha in ((0, A10), (1, A10), (2, A10), (3, A4), (4, A4)):
        if n > r.m.maxlen() + 1:
            break
        for x in strings_of(alpha, n):
            yield pre + ["r" + x] + list(TAIL)
