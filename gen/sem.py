"""Families for validity, names and special values (C02) and for conditions and versions (C03)."""
import itertools
from gen.fam import el, q, schema
from gen import wire as gw
from vlib import wire as vw

I, Z = gw.I, gw.Z
VERS = "0 1 2 3 4 5 6".split()
IFV = '<interface name="Message"><int name="Ver" type="uint8" semanticType="version"/></interface>'
# name, additional arguments, Batch keywords, text before the messages, remote versions reported by the peer
CONFIGS = [("plain", [], {}, "", [None]),
           ("ver", [], {}, IFV, VERS),
           ("min2", ["-m", "2"], {"min_remote": 2}, IFV, VERS[2:]),
           ("forced3", ["--force-schema-version", "3"], {"forced": 3}, IFV, VERS),
           ("forced3min1", ["--force-schema-version", "3", "-m", "1"], {"forced": 3, "min_remote": 1}, IFV, VERS[1:]),
           ("indep", ["--version-independent-code"], {"verdep": False}, IFV, ["0", "3", "6"])]


def batches(fams, n=24, configs=CONFIGS, pre="", note=None, version="5", only=" ver "):
    out = []
    for fn, g in fams:
        cases = list(g())
        for cn, args, kw, ifc, vers in configs:
            part, k = [], 0
            def flush():
                nonlocal part, k
                if part:
                    gl = []
                    for c in part:
                        if c[1] and c[1] not in gl:
                            gl.append(c[1])
                    text = schema(pre + "".join(gl) + ifc + "".join(el("message", dict({"name": "M%d" % i, "id": str(1 + i), "displayName": "M%d" % i}, **c[2]), c[3]) for i, c in enumerate(part)), name="s", version=version)
                    b = vw.Batch("%s|%s|%d" % (fn, cn, k), [("s.xml", text)], list(args), **kw)
                    b.cases = [("%s|%s|%s" % (fn, cn, c[0]), "M%d" % i, (vers, c[4] if len(c) > 4 else None)) for i, c in enumerate(part)]
                    out.append(b)
                    k += 1
                    part = []
            for c in cases:
                if cn != "plain" and only and only not in c[0]:
                    continue
                why = gw.legal((c[0], pre + c[1] + ifc, c[2], c[3]), version=version)
                if why:
                    if note is not None:
                        note.append((fn, c[0], why))
                    continue
                part.append(c)
                if len(part) >= n:
                    flush()
            flush()
    return out


def named_inputs(env, m, extra):
    """names, special values, bits by name first"""
    yield ["S"]
    yield from ver_inputs(env, m, extra)


def ver_inputs(env, m, extra):
    """the exploration of gen.wire for every version the peer may report; the first and the last in full"""
    vers, more = extra
    for i, v in enumerate(vers):
        pre = [] if v is None else ["t0=" + v]
        for x in (more or [[]]):
            yield from gw.wire_inputs(env, m, None, 2 if len(vers) == 1 else 1, pre + list(x), 300 if len(vers) == 1 else 120)


def vr(*rs):
    """rs: (value, since, deprecated)"""
    return "".join(el(t, [(k, x) for k, x in (("value", v), ("sinceVersion", s), ("deprecated", d)) if x]) for t, v, s, d in rs)


RNG = {"uint8": ["[1,5]", "0", "[250,255]", "7"], "int8": ["[-5,5]", "-128", "[120,127]", "-7"], "uint16": ["[1,5]", "[0xff00,0xffff]", "0x100", "[0,0]"], "int16": ["[-300,-200]", "0", "[32767,32767]"],
       "uint64": ["[0x8000000000000000,0x8000000000000005]", "0xffffffffffffffff", "3", "[0x7fffffffffffffff,0x8000000000000000]"], "int64": ["[-9223372036854775808,-5]", "9223372036854775807", "0"], "uint32": ["[0x80000000,0xfffffffe]", "4"],
       "int32": ["-2147483648", "[-1,1]"], "intvar": ["[-64,63]", "-1000"], "uintvar": ["[0,127]", "0x4000"]}


def ints():
    for t, rs in RNG.items():
        for n in range(len(rs) + 1):
            for comb in itertools.combinations(rs, n):
                for a in ({}, {"failOnInvalid": "true"}, {"validCheckVersion": "true"}) if n else ({},):
                    kids = [("validRange" if "[" in r else "validValue", r, None, None) for r in comb]
                    yield "int %s %s %s" % (t, ";".join(comb), "".join(a)), "", {}, el("int", dict({"name": "f", "type": t}, **a), vr(*kids)) + Z()
    for t, lo, hi in (("uint8", "5", "250"), ("int8", "-100", "100"), ("uint64", "0x10", "0xfffffffffffffff0"), ("int64", "-5", "5"), ("uint32", "1", "0x80000001"), ("intvar", "-5", "5")):
        for k in (("validMin",), ("validMax",), ("validMin", "validMax")):
            for f in ("false", "true"):
                yield "int minmax %s %s %s" % (t, k, f), "", {}, I("f", t, failOnInvalid=f, **{x: lo if x == "validMin" else hi for x in k}) + Z()
    for n in (3, 6, 12, 40):
        for t, base, step in (("uint8", 0, 3), ("int16", -60, 5), ("uint64", 1 << 63, 2), ("int64", -(1 << 63), 3)):
            rs = [("validValue", str(base + i * step), None, None) if i % 2 else ("validRange", "[%d,%d]" % (base + i * step, base + i * step + 1), None, None) for i in range(n)]
            for f in ("false", "true"):
                yield "int many %s %d %s" % (t, n, f), "", {}, el("int", {"name": "f", "type": t, "failOnInvalid": f}, vr(*rs)) + Z()
    spans = [(None, None), ("2", None), (None, "3"), ("2", "4"), ("4", None)]
    for t in ("uint8", "int64", "uint64"):
        r = RNG[t]
        for (s1, d1), (s2, d2) in itertools.product(spans, spans):
            for chk in ("true", "false"):
                for f in ("false", "true"):
                    k1, k2 = (("validRange" if "[" in x else "validValue", x) for x in r[:2])
                    yield "int ver %s %s-%s %s-%s %s %s" % (t, s1, d1, s2, d2, chk, f), "", {}, el("int", {"name": "f", "type": t, "validCheckVersion": chk, "failOnInvalid": f}, vr(k1 + (s1, d1), k2 + (s2, d2))) + Z()
    for s1, d1 in spans:
        yield "int ver same %s-%s" % (s1, d1), "", {}, el("int", {"name": "f", "type": "uint8", "validCheckVersion": "true"}, vr(("validRange", "[1,10]", s1, d1), ("validRange", "[5,20]", None, None), ("validValue", "15", "1", "5"), ("validValue", "30", "3", None)))


def vv(n, v, s=None, d=None, dn=None): return el("validValue", [(k, x) for k, x in (("name", n), ("val", v), ("sinceVersion", s), ("deprecated", d), ("displayName", dn)) if x])


def enums():
    sets_ = {"dense": [("A", "0"), ("B", "1"), ("C", "2")], "gap": [("A", "0"), ("B", "5"), ("C", "200")], "one": [("A", "7")], "desc": [("A", "9"), ("B", "3"), ("C", "6")], "runs": [(chr(65 + i), str(v)) for i, v in enumerate((1, 2, 3, 10, 11, 20, 40, 41, 42, 43))],
             "many": [("V%d" % i, str(i * 3)) for i in range(40)], "long": [("V%d" % i, str(i)) for i in range(60)]}
    for t in ("uint8", "int8", "uint16", "int32", "uint64", "int64", "uintvar", "intvar"):
        for sn, vs in sets_.items():
            vs = list(vs)
            if t[0] == "i":
                vs += [("NG", "-1"), ("MN", "-64")]
                vs = [(n, v) for n, v in vs if t != "int8" or int(v) < 128]
            if t in ("uint64",):
                vs += [("HI", "0xffffffffffffffff"), ("MID", "0x8000000000000000")]
            if t == "int64":
                vs += [("LO", "-9223372036854775808"), ("HI", "9223372036854775807")]
            for a in ({}, {"failOnInvalid": "true"}, {"validCheckVersion": "true"}, {"hexAssign": "true"}):
                yield "enum %s %s %s" % (t, sn, "".join(a)), "", {}, el("enum", dict({"name": "f", "type": t, "defaultValue": vs[-1][0]}, **a), "".join(vv(n, v) for n, v in vs)) + Z()
    yield "enum dup", "", {}, el("enum", {"name": "f", "type": "uint8", "nonUniqueAllowed": "true"}, vv("A", "1", dn="first") + vv("B", "1", dn="second") + vv("C", "3") + vv("D", "1"))
    yield "enum dup ver", "", {}, el("enum", {"name": "f", "type": "uint8", "nonUniqueAllowed": "true", "validCheckVersion": "true"}, vv("A", "1", "2", "4") + vv("B", "1", "3") + vv("C", "3"))
    spans = [(None, None), ("2", None), (None, "3"), ("2", "4"), ("4", None)]
    for t in ("uint8", "int16", "uint64"):
        for (s1, d1), (s2, d2) in itertools.product(spans, spans):
            for chk in ("true", "false"):
                for f in ("false", "true"):
                    yield "enum ver %s %s-%s %s-%s %s %s" % (t, s1, d1, s2, d2, chk, f), "", {}, el("enum", {"name": "f", "type": t, "validCheckVersion": chk, "failOnInvalid": f, "defaultValue": "0"}, vv("K", "0") + vv("A", "1", s1, d1) + vv("B", "0x8000000000000001" if t == "uint64" else "2", s2, d2))
    for chk in ("true", "false"):
        yield "enum ver many " + chk, "", {}, el("enum", {"name": "f", "type": "uint8", "validCheckVersion": chk}, "".join(vv("V%d" % i, str(i * 2), *spans[i % 5]) for i in range(30)))


def bit(n, i, **a): return el("bit", [("name", n), ("idx", str(i))] + [(k, v) for k, v in a.items() if v is not None])


def sets():
    for ln in (1, 2, 4, 8):
        hi = ln * 8 - 1
        for a in ({}, {"reservedValue": "true"}, {"defaultValue": "true"}, {"failOnInvalid": "true"}, {"validCheckVersion": "true"}, {"reservedValue": "true", "defaultValue": "true"}):
            for bn, bits in (("none", ""), ("lo", bit("a", 0)), ("hi", bit("a", hi)), ("res", bit("a", 0) + bit("r", 1, reserved="true", reservedValue="true") + bit("q", hi, reserved="true")), ("all", "".join(bit("b%d" % i, i) for i in range(hi + 1))),
                             ("def", bit("a", 0, defaultValue="true") + bit("b", hi, defaultValue="false")), ("names", bit("Upper", 2, displayName="Upper bit") + bit("lower_x", 3))):
                if bn == "none" and ln > 1:
                    continue
                yield "set %d %s %s" % (ln, ",".join(a), bn), "", {}, el("set", dict({"name": "f", "length": str(ln)}, **a), bits) + Z()
    yield "set dup", "", {}, el("set", {"name": "f", "length": "1", "nonUniqueAllowed": "true"}, bit("a", 0) + bit("b", 0) + bit("c", 3))
    spans = [(None, None), ("2", None), (None, "3"), ("2", "4"), ("4", None)]
    for (s1, d1), (s2, d2) in itertools.product(spans, spans):
        for chk in ("true", "false"):
            for f in ("false", "true"):
                for rv in ("false", "true"):
                    yield "set ver %s-%s %s-%s %s %s %s" % (s1, d1, s2, d2, chk, f, rv), "", {}, el("set", {"name": "f", "length": "1", "validCheckVersion": chk, "failOnInvalid": f, "defaultValue": rv, "reservedValue": rv}, bit("k", 0) + bit("a", 1, sinceVersion=s1, deprecated=d1) + bit("b", 7, sinceVersion=s2, deprecated=d2))


def floats():
    for t in ("float", "double"):
        for rn, rs in (("none", ()), ("one", ("[1.5,2.5]",)), ("two", ("[-1,1]", "[10,20]")), ("val", ("[3,3]",)), ("over", ("[0,5]", "[3,8]")), ("big", ("[1e30,2e30]",)), ("neg", ("[-2.5,-1.5]",)), ("frac", ("[0.1,0.3]",))):
            for nan in ("", '<validValue value="nan"/>', '<validValue value="inf"/>'):
                for a in ({}, {"failOnInvalid": "true"}, {"validFullRange": "true"}, {"validCheckVersion": "true"}):
                    yield "float %s %s %s %s" % (t, rn, nan[19:22], "".join(a)), "", {}, el("float", dict({"name": "f", "type": t}, **a), "".join('<validRange value="%s"/>' % r for r in rs) + nan) + Z()
    spans = [(None, None), ("2", None), (None, "3"), ("2", "4"), ("4", None)]
    for (s1, d1), (s2, d2) in itertools.product(spans, spans):
        for chk in ("true", "false"):
            yield "float ver %s-%s %s-%s %s" % (s1, d1, s2, d2, chk), "", {}, el("float", {"name": "f", "type": "float", "validCheckVersion": chk}, vr(("validRange", "[1,2]", s1, d1), ("validValue", "nan", s2, d2)))


def texts():
    for k, vals in (("string", ("abc", "b", "", "Abc")), ("data", ("01", "01 02", "ff", "0a0b"))):
        for n in range(0, len(vals) + 1):
            for f in ("false", "true"):
                for form in ({"zeroTermSuffix": "true"}, {}, {"length": "3"}) if k == "string" else ({}, {"length": "2"}):
                    if "length" in form and f == "true":
                        continue
                    vs = [v for v in vals[:n] if k != "string" or "length" not in form or len(v) <= 3]
                    yield "%s %d %s %s" % (k, n, f, "".join(form)), "", {}, el(k, dict({"name": "f", "failOnInvalid": f}, **form), "".join('<validValue value="%s"/>' % v for v in vs if v))
        spans = [(None, None), ("2", None), (None, "3"), ("2", "4")]
        for (s1, d1), (s2, d2) in itertools.product(spans, spans):
            for chk in ("true", "false"):
                yield "%s ver %s-%s %s-%s %s" % (k, s1, d1, s2, d2, chk), "", {}, el(k, {"name": "f", "validCheckVersion": chk}, vr(("validValue", vals[0], s1, d1), ("validValue", vals[1], s2, d2)))
    for v in ("a\\b", "q&quot;q", "t\tt", "back\\\\", "??/", "%d", "&#233;"):
        yield "string chars " + v, "", {}, el("string", {"name": "f", "defaultValue": v}, '<validValue value="%s"/>' % v)


def combined():
    F = '<int name="x" type="uint8" validRange="[1,5]" failOnInvalid="%s" defaultValue="1"/>'
    for f in ("false", "true"):
        yield "bundle " + f, "", {}, '<bundle name="f" failOnInvalid="%s">' % f + F % "false" + '<int name="y" type="uint8" validMax="9"/></bundle>' + Z()
        yield "bitfield " + f, "", {}, '<bitfield name="f" failOnInvalid="%s"><int name="x" type="uint8" bitLength="4" validRange="[1,5]" defaultValue="1"/><enum name="y" type="uint8" bitLength="4"><validValue name="A" val="0"/></enum></bitfield>' % f + Z()
        yield "bitfield inner " + f, "", {}, '<bitfield name="f"><int name="x" type="uint8" bitLength="4" validRange="[1,5]" failOnInvalid="%s" defaultValue="1"/><set name="y" bitLength="4" failOnInvalid="%s"><bit name="A" idx="0"/></set></bitfield>' % (f, f) + Z()
        yield "list " + f, "", {}, '<list name="f" failOnInvalid="%s"><element>%s</element></list>' % (f, F % "false")
        yield "list el " + f, "", {}, '<list name="f"><element>%s</element></list>' % (F % f)
        yield "optional " + f, "", {}, '<optional name="f" failOnInvalid="%s"><field>%s</field></optional>' % (f, F % "false")
        yield "variant " + f, "", {}, '<variant name="f" failOnInvalid="%s">%s</variant>' % (f, F % "false")
        yield "msg fail " + f, "", {"failOnInvalid": f}, F % "false" + Z()
        if f == "false":
            yield "ref " + f, '<fields><int name="G" type="uint8" validRange="[1,5]" defaultValue="2" failOnInvalid="%s"/></fields>' % f if f == "true" else "", {}, ('<ref name="f" field="G"/>' if f == "true" else F % f) + Z()
        for c in ("$x = 1", "$x &gt; $y", "$x != $y"):
            b = '<bundle name="f" failOnInvalid="%s" validCond="%s"><int name="x" type="uint8"/><int name="y" type="uint8"/></bundle>' % (f, c)
            yield "bundle validCond %s %s" % (f, c), "", {}, b + Z()
            yield "bitfield validCond %s %s" % (f, c), "", {}, '<bitfield name="f" failOnInvalid="%s" validCond="%s"><int name="x" type="uint8" bitLength="4"/><int name="y" type="uint8" bitLength="4"/></bitfield>' % (f, c) + Z()
            yield "msg validCond %s %s" % (f, c), "", {"failOnInvalid": f, "validCond": c.replace("&gt;", ">")}, '<int name="x" type="uint8"/><int name="y" type="uint8"/>'
            yield "list of validCond %s %s" % (f, c), "", {}, '<list name="l"><element>%s</element></list>' % b.replace('name="f"', 'name="e"')
    yield "bundle validCond and", "", {}, '<bundle name="f"><validCond><and><cond value="$x = 1"/><or><cond value="$y &lt; 3"/><cond value="$s.b"/></or></and></validCond><members><int name="x" type="uint8"/><int name="y" type="int8"/><set name="s" length="1"><bit name="b" idx="2"/></set></members></bundle>'
    yield "fixed", "", {}, I("f", defaultValue="5", fixedValue="true", validValue="5") + I("g", defaultValue="5", fixedValue="true", validValue="6") + I("h", defaultValue="5", fixedValue="true", validValue="5", failOnInvalid="true")


SPANS = [(None, None), ("2", None), (None, "3"), ("2", "4"), ("4", None)]
def spc(n, v, s=None, d=None, dn=None): return el("special", [(k, x) for k, x in (("name", n), ("val", v), ("sinceVersion", s), ("deprecated", d), ("displayName", dn)) if x])


def specials():
    W = {"uint8": ("0", "1", "255", "0x80"), "int8": ("0", "-1", "-128", "127"), "uint16": ("0", "0xffff", "300"), "int16": ("-32768", "5", "32767"), "uint32": ("0", "0xffffffff", "0x80000000"), "int32": ("-2147483648", "2147483647", "0"),
         "uint64": ("0", "0xffffffffffffffff", "0x8000000000000000", "5"), "int64": ("-9223372036854775808", "9223372036854775807", "-1"), "intvar": ("-64", "1000", "0"), "uintvar": ("127", "128", "0")}
    for t, vs in W.items():
        for a in ({}, {"serOffset": "5"}, {"length": "1"} if t not in ("int8", "uint8") else {"bits": 1}):
            if a == {"bits": 1}:
                b = '<bitfield name="f"><int name="x" type="%s" bitLength="5">%s</int><int name="y" type="uint8" bitLength="3">%s</int></bitfield>' % (t, spc("one", "1") + spc("Ten", "10"), spc("one", "1") + spc("seven", "7"))
                yield "special bits " + t, "", {}, b
                continue
            ok = [v for v in vs if "length" not in a or -64 <= int(v, 0) < 64]
            yield "special %s %s" % (t, "".join(a)), "", {}, el("int", dict({"name": "f", "type": t}, **a), "".join(spc(n, v) for n, v in zip(("alpha", "Beta", "c_3", "_d"), ok))) + Z()
    yield "special dup", "", {}, el("int", {"name": "f", "type": "uint8", "nonUniqueSpecialsAllowed": "true"}, spc("a", "1") + spc("B", "1", dn="be") + spc("c", "2"))
    for t in ("float", "double"):
        for vs in (("nan", "inf", "-inf", "0"), ("1.5", "-2.5", "1e10", "0.1"), ("3e38", "-3e38", "1e-3", "nan"), ("100", "inf")):
            yield "special %s %s" % (t, vs), "", {}, el("float", {"name": "f", "type": t, "displayDecimals": "3"}, "".join(spc(n, v) for n, v in zip(("alpha", "Beta", "c_3", "_d"), vs))) + Z()
    for (s1, d1), (s2, d2) in itertools.product(SPANS, SPANS):
        for t in ("uint8", "int64", "float"):
            yield "special ver %s %s-%s %s-%s" % (t, s1, d1, s2, d2), "", {}, el("int" if t != "float" else t, {"name": "f", "type": t}, spc("k", "0") + spc("a", "1", s1, d1) + spc("B", "2", s2, d2))
            yield "special ver all %s %s-%s %s-%s" % (t, s1, d1, s2, d2), "", {}, el("int" if t != "float" else t, {"name": "f", "type": t}, spc("a", "1", s1, d1) + spc("B", "2", s2, d2))


def enames():
    for t in ("uint8", "int8", "uint64", "int32", "uintvar"):
        for dn in ("disp", "_", None):
            for low in (0, 1):
                ns = [("a_a", "1"), ("b", "3"), ("c", "4")] if low else [("Aa", "1"), ("B", "3"), ("FirstValue" if dn else "C", "4")]
                for big in (0, 1):
                    vs = "".join(vv(n, v, dn=dn if i else None) for i, (n, v) in enumerate(ns)) + (vv("zz" if low else "ZZ", "100", dn=dn) if big else "")
                    yield "ename %s %s %d %d" % (t, dn, low, big), "", {}, el("enum", {"name": "f", "type": t}, vs) + Z()
    for t in ("uint8", "int16", "uint64"):
        for (s1, d1), (s2, d2) in itertools.product(SPANS, SPANS):
            for big in ("2", "200"):
                yield "ename ver %s %s-%s %s-%s %s" % (t, s1, d1, s2, d2, big), "", {}, el("enum", {"name": "f", "type": t, "nonUniqueAllowed": "true"}, vv("K", "0") + vv("A", "1", s1, d1, "first") + vv("B", "1", s2, d2) + vv("C", big, s1, d1) + vv("D", big, s2, d2))


def quantities():
    from model import cdsl
    for i, u in enumerate(sorted(cdsl.UNITS)):
        if u:
            yield "units " + u, "", {}, I("f", units=u, scaling="1/10" if i % 2 else None) + '<float name="g" type="float" units="%s"/>' % u.upper()
    for sc in ("1", "2", "1/2", "2/4", "100/1", "1000000/3", "7/7"):
        for off in (None, "3", "-100", "0"):
            for d in (None, "5"):
                yield "scaling %s %s %s" % (sc, off, d), "", {}, I("f", "int16", scaling=sc, displayOffset=off, displayDecimals=d) + Z()
    for l in (1, 2):
        yield "units bits %d" % l, "", {}, '<bitfield name="f"><int name="x" type="uint8" bitLength="5" units="ms" scaling="2/3"/><int name="y" type="uint8" bitLength="3" units="%s" displayOffset="2"/></bitfield>' % ("m", "km/h")[l - 1]


def naming():
    inner = I("a", displayName="the a") + I("B_x") + '<set name="sss" length="1"><bit name="bit0" idx="0"/><bit name="Bit5" idx="5" displayName="five"/></set>'
    g = '<fields><bundle name="GB">%s</bundle><enum name="GE" type="uint8"><validValue name="A" val="1"/></enum><variant name="GV">%s</variant></fields>' % (inner, I("m1") + I("M2", displayName="_"))
    opt = '<optional name="o" displayName="opt disp"><field>%s</field></optional>' % I("of", displayName="inner")
    kinds = [("bundle", '<bundle name="f" displayName="b d">%s</bundle>' % inner), ("bitfield", '<bitfield name="Ff"><int name="q1" type="uint8" bitLength="3" displayName="d d"/><enum name="E2" type="uint8" bitLength="3"><validValue name="V" val="2"/></enum><set name="s3" bitLength="2"><bit name="z" idx="1"/></set></bitfield>'),
             ("optional", opt), ("variant", '<variant name="v">%s<bundle name="bb">%s</bundle>%s</variant>' % (I("m1", displayName="mem 1"), inner, '<string name="Str"/>')), ("list", '<list name="l"><element><bundle name="elem" displayName="EE">%s</bundle></element></list>' % inner),
             ("string", '<string name="s" displayName="_"/>'), ("data", '<data name="d" displayName="D d"/>'), ("float", '<float name="fl" type="float" displayName="F"/>'), ("set", '<set name="st" length="2" displayName="SET"><bit name="x" idx="3" displayName="_"/><bit name="y" idx="15"/></set>')]
    for (k1, x1), (k2, x2) in itertools.permutations(kinds, 2):
        yield "naming %s %s" % (k1, k2), "", {"displayName": "msg " + k1}, x1 + x2
    for r in ("GB", "GE", "GV"):
        for dn in (None, "over", "_"):
            yield "naming ref %s %s" % (r, dn), g, {}, el("ref", [(k, v) for k, v in (("name", "r"), ("field", r), ("displayName", dn)) if v]) + Z()
    for (s1, d1) in SPANS[1:]:
        for dr in ("true", "false"):
            at = {k: v for k, v in (("sinceVersion", s1), ("deprecated", d1), ("removed", dr if d1 else None)) if v}
            yield "naming ver %s-%s %s" % (s1, d1, dr), "", {}, Z() + el("bundle", dict({"name": "f", "displayName": "x y"}, **at), inner) + el("enum", dict({"name": "e", "type": "uint8"}, **at), vv("A", "3"))
            yield "naming ver bits %s-%s %s" % (s1, d1, dr), "", {}, Z() + el("set", {"name": "f", "length": "1"}, bit("a", 1, sinceVersion=s1, deprecated=d1) + bit("b", 2) + bit("R", 3, reserved="true"))


C02V = [("specials", specials), ("enames", enames), ("quantities", quantities), ("naming", naming), ("ints", ints), ("enums", enums), ("sets", sets), ("floats", floats), ("texts", texts), ("combined", combined)]
