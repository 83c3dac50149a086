"""Families for C03: presence of optional fields, conditions of messages, versions."""
import itertools
from gen.fam import el
from gen import sem
from gen import wire as gw
from gen.sem import bit, vv, spc

I, Z = gw.I, gw.Z
OPS = "= != < <= > >=".split()


def esc(s): return s.replace("&", "&amp;").replace("<", "&lt;").replace('"', "&quot;")


def opt(n, c, inner=None, **a):
    """optional with a condition: an expression or the text of the and/or element"""
    at = [("name", n)] + [(k, v) for k, v in a.items() if v is not None]
    if c is not None and not c.startswith("<"):
        at.append(("cond", c))
        c = None
    return el("optional", at, (c or "") + "<field>%s</field>" % (inner or I("f")))


def AND(*c): return "<and>%s</and>" % "".join(x if x.startswith("<") else '<cond value="%s"/>' % esc(x) for x in c)
def OR(*c): return "<or>%s</or>" % "".join(x if x.startswith("<") else '<cond value="%s"/>' % esc(x) for x in c)


CONSTS = {"uint8": ["0", "5", "255"], "int8": ["-1", "0", "-128", "127"], "uint16": ["256", "65535"], "int16": ["-300", "0x7f"], "uint32": ["0x80000000", "4294967295"], "int32": ["-2147483648", "1"],
          "uint64": ["0x8000000000000000", "0xffffffffffffffff", "9223372036854775807", "1"], "int64": ["-9223372036854775808", "9223372036854775807", "-1"], "intvar": ["-65", "64"], "uintvar": ["128", "0"]}


def control(t, consts, n="a", **a):
    return el("int", dict({"name": n, "type": t}, **a), "".join(spc("S%d" % i, c) for i, c in enumerate(dict.fromkeys(consts))))


def values():
    for t, cs in CONSTS.items():
        for c in cs:
            for part in (OPS[:2], OPS[2:4], OPS[4:]):
                yield "val int %s %s %s" % (t, c, "".join(part)), "", {}, control(t, cs) + "".join(opt("o%d" % i, "$a %s %s" % (o, c)) for i, o in enumerate(part))
    for ln, t in (("3", "uint32"), ("3", "int32"), ("5", "int64"), ("7", "uint64")):
        for c in ("1", "-1"):
            if c == "-1" and t[0] == "u":
                continue
            yield "val len %s %s %s" % (t, ln, c), "", {}, control(t, [c], length=ln) + opt("o", "$a = " + c) + opt("p", "$a < " + c)
    for so in ("5", "-5", "-2000"):
        yield "val off %s" % so, "", {}, control("int16", ["10", "-10"], serOffset=so, length="1" if so != "-2000" else "2") + opt("o", "$a = 10") + opt("p", "$a > -10")
    for o in OPS:
        yield "val special %s" % o, "", {}, control("uint8", ["7", "9"]) + opt("o", "$a %s S0" % o) + opt("p", "$a %s S1" % o)
        yield "val enum %s" % o, "", {}, el("enum", {"name": "a", "type": "uint8"}, vv("A", "1") + vv("B", "7") + vv("C", "200")) + opt("o", "$a %s B" % o) + opt("p", "$a %s 7" % o) + opt("q", "$a %s 9" % o)
        yield "val enum signed %s" % o, "", {}, el("enum", {"name": "a", "type": "int16"}, vv("A", "-1") + vv("B", "-300") + vv("C", "200")) + opt("o", "$a %s B" % o) + opt("p", "$a %s -1" % o)
        yield "val enum big %s" % o, "", {}, el("enum", {"name": "a", "type": "uint64"}, vv("A", "0xffffffffffffffff") + vv("B", "0x8000000000000000") + vv("C", "3")) + opt("o", "$a %s B" % o) + opt("p", "$a %s 0xffffffffffffffff" % o)
        yield "val set %s" % o, "", {}, el("set", {"name": "a", "length": "1"}, bit("x", 0) + bit("y", 7)) + opt("o", "$a %s 1" % o) + opt("p", "$a %s 0x80" % o)
        for ft, cs in (("float", ("1.5", "-2.25", "0")), ("double", ("0.1", "-1000000.5"))):
            yield "val float %s %s" % (ft, o), "", {}, el("float", {"name": "a", "type": ft}, "".join('<validValue value="%s"/>' % c for c in cs)) + "".join(opt("o%d" % i, "$a %s %s" % (o, c)) for i, c in enumerate(cs))
        yield "val str %s" % o, "", {}, '<string name="a"><lengthPrefix><int name="l" type="uint8"/></lengthPrefix><validValue value="ab"/></string>' + opt("o", "$a %s ab" % o) + opt("p", "$a %s A" % o)
        for c in ("0", "1", "2"):
            yield "val size %s %s" % (o, c), "", {}, '<string name="a"><lengthPrefix><int name="l" type="uint8"/></lengthPrefix></string>' + opt("o", "$#a %s %s" % (o, c)) + \
                '<data name="b"><lengthPrefix><int name="l" type="uint8"/></lengthPrefix></data>' + opt("p", "$#b %s %s" % (o, c))
            yield "val count %s %s" % (o, c), "", {}, '<list name="a"><countPrefix><int name="n" type="uint8"/></countPrefix><element>%s</element></list>' % I("e", "uint16") + opt("o", "$#a %s %s" % (o, c))


BITS = '<set name="s" length="1"><bit name="b0" idx="0"/><bit name="b1" idx="1"/><bit name="b7" idx="7"/></set>'


def bools():
    A, B, C, D = "$s.b0", "!$s.b1", "$a = 1", "$a > 5"
    ex = [A, B, "$s.b7", "!$s.b7", AND(A, B), OR(A, B), AND(A, B, "$s.b7"), OR(A, B, C), AND(A, OR(B, C)), OR(A, AND(B, C)), AND(OR(A, C), OR(B, D)), OR(AND(A, C), AND(B, D)), AND(OR(AND(A, C), D), B), OR(AND(OR(A, C), D), B),
          AND(C, D), OR(C, D), AND(OR(A, B), OR(C, D), "$s.b7"), OR(AND(A, AND(B, C)), AND(D, OR(A, C)))]
    for i, e in enumerate(ex):
        yield "bool %d" % i, "", {}, BITS + control("uint8", ["1", "5"]) + opt("o", e) + Z()
        yield "bool %d bundle" % i, "", {}, '<bundle name="x">%s</bundle>' % (BITS + control("uint8", ["1", "5"]) + opt("o", e)) + Z()
        yield "bool %d path" % i, "", {}, '<bundle name="x">%s</bundle>' % (BITS + control("uint8", ["1", "5"])) + opt("o", e.replace("$", "$x.")) + Z()
        yield "bool %d bitfield" % i, "", {}, '<bitfield name="x"><set name="s" bitLength="5"><bit name="b0" idx="0"/><bit name="b1" idx="1"/><bit name="b7" idx="4"/></set>%s</bitfield>' % I("a", bitLength="3") + opt("o", e.replace("$", "$x.")) + Z()


def exists():
    base = opt("p", "$s.b0", I("f"))
    for c in ("$?p", "!$?p", "$p.f = 1", "$p.f != 1", "$p.f < 3", AND("$?p", "$p.f = 1"), OR("!$?p", "$p.f = 1"), OR("$p.f = 1", "$p.f != 1")):
        yield "ex %s" % c, "", {}, BITS + base + opt("o", c)
        yield "ex nested %s" % c, "", {}, BITS + '<bundle name="x">%s</bundle>' % opt("p", None, I("f"), defaultMode="exists") + opt("o", c.replace("$?p", "$?x.p").replace("$p", "$x.p"))
        yield "ex mode %s" % c, "", {}, opt("p", None, I("f"), missingOnReadFail="true") + opt("o", c)
    yield "ex chain", "", {}, BITS + opt("p", "$s.b0") + opt("q", "$?p") + opt("r", "$?q") + opt("t", "!$?r")
    yield "ex chain values", "", {}, I("a") + opt("p", "$a = 1") + opt("q", "$p.f = 1") + opt("r", "$q.f = 1")
    yield "ex deep", "", {}, BITS + opt("p", "$s.b0", '<bundle name="f">%s%s</bundle>' % (I("m"), opt("i", "$m = 2"))) + opt("o", "$?p.f.i") + opt("q", "$p.f.m = 2") + opt("r", "$p.f.i.f = 0")
    yield "ex opt of opt", "", {}, BITS + opt("p", "$s.b0", opt("i", None, I("f"))) + opt("o", "$?p") + opt("q", "$p.i.f = 1") + opt("r", "$?p.i")
    yield "ex set in opt", "", {}, BITS + opt("p", "$s.b0", '<set name="f" length="1"><bit name="k" idx="2"/></set>') + opt("o", "$p.f.k") + opt("q", "!$p.f.k")
    for c in ("$p.f.k", "!$p.f.k"):
        x = BITS + opt("p", "$s.b0", '<set name="f" length="1"><bit name="k" idx="2"/></set>')
        yield "ex set in opt single %s" % c, "", {}, x + opt("o", c)
        yield "ex set in opt and %s" % c, "", {}, x + opt("o", '<and><cond value="$s.b1"/><cond value="%s"/></and>' % c)
        yield "ex set in opt or %s" % c, "", {}, x + opt("o", '<or><cond value="$s.b1"/><cond value="%s"/></or>' % c)
        yield "ex set in opt bundle %s" % c, "", {}, '<bundle name="x">%s</bundle>' % (x + opt("o", c))


def fields():
    """comparison of two fields"""
    ts = ["uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64"]
    for a, b in itertools.product(ts, ts):
        for part in (("=", "!="), ("<", ">=")):
            yield "fld %s %s %s" % (a, b, "".join(part)), "", {}, control(a, ["1", "100"]) + control(b, ["1", "100"], "b") + "".join(opt("o%d" % i, "$a %s $b" % o) for i, o in enumerate(part))
    for o in OPS:
        yield "fld var %s" % o, "", {}, I("a", "uintvar") + I("b", "intvar") + opt("o", "$a %s $b" % o)
        yield "fld enum %s" % o, "", {}, "".join(el("enum", {"name": n, "type": "uint8"}, vv("A", "1") + vv("B", "7")) for n in "ab") + opt("o", "$a %s $b" % o)
        yield "fld set %s" % o, "", {}, "".join(el("set", {"name": n, "length": "1"}, bit("x", 0) + bit("y", 7)) for n in "ab") + opt("o", "$a %s $b" % o)
        yield "fld int enum %s" % o, "", {}, el("enum", {"name": "a", "type": "uint8"}, vv("A", "1") + vv("B", "7")) + I("b") + opt("o", "$a %s $b" % o)
        for x, y in itertools.product(("float", "double"), repeat=2):
            yield "fld %s %s %s" % (x, y, o), "", {}, el("float", {"name": "a", "type": x}) + el("float", {"name": "b", "type": y}) + opt("o", "$a %s $b" % o)
        yield "fld float int %s" % o, "", {}, el("float", {"name": "a", "type": "float"}) + I("b", "int8") + opt("o", "$a %s $b" % o) + opt("p", "$b %s $a" % o)
        yield "fld str %s" % o, "", {}, "".join('<string name="%s"><lengthPrefix><int name="l" type="uint8"/></lengthPrefix></string>' % n for n in "ab") + opt("o", "$a %s $b" % o)
        yield "fld data %s" % o, "", {}, "".join('<data name="%s"><lengthPrefix><int name="l" type="uint8"/></lengthPrefix></data>' % n for n in "ab") + opt("o", "$a %s $b" % o)
        yield "fld opt %s" % o, "", {}, BITS + opt("a", "$s.b0") + opt("b", "$s.b1") + opt("o", "$a.f %s $b.f" % o)
        yield "fld bundle %s" % o, "", {}, '<bundle name="x">%s</bundle><bundle name="y">%s</bundle>' % (I("a"), I("b", "int16")) + opt("o", "$x.a %s $y.b" % o)


def modes():
    for dm in (None, "tentative", "missing", "exists"):
        for mrf in (None, "true"):
            for moi in (None, "true"):
                for c in (None, "$a = 1"):
                    for inn in (I("f", "uint16"), el("int", {"name": "f", "type": "uint8"}, sem.vr(("validRange", "[1,3]", None, None))), el("int", {"name": "f", "type": "uint8", "failOnInvalid": "true"}, sem.vr(("validRange", "[1,3]", None, None)))):
                        yield "mode %s %s %s %s %s" % (dm, mrf, moi, c, len(inn)), "", {}, I("a") + opt("o", c, inn, defaultMode=dm, missingOnReadFail=mrf, missingOnInvalid=moi) + (Z() if mrf else "")
    for e in ("true", None):
        yield "mode ext %s" % e, '<fields>%s</fields>' % opt("O", None, I("f", "uint16"), defaultMode="missing"), {}, I("a") + '<ref name="r" field="O"/>'


def nested():
    core = I("a") + opt("o", "$a = 1", I("f", "uint16"))
    yield "nest list", "", {}, '<list name="l"><countPrefix>%s</countPrefix><element><bundle name="e">%s</bundle></element></list>' % (I("n"), core)
    yield "nest rest list", "", {}, '<list name="l"><element><bundle name="e">%s</bundle></element></list>' % core
    yield "nest variant", "", {}, '<variant name="v"><bundle name="m"><int name="k" type="uint8" validValue="1" defaultValue="1" failOnInvalid="true"/>%s</bundle><bundle name="n"><int name="k" type="uint8" validValue="2" defaultValue="2" failOnInvalid="true"/>%s</bundle></variant>' % (core, opt("q", "$k = 2"))
    yield "nest opt", "", {}, BITS + opt("p", "$s.b0", '<bundle name="f">%s</bundle>' % core)
    yield "nest bundle2", "", {}, '<bundle name="x"><bundle name="y">%s</bundle>%s</bundle>%s' % (core, opt("q", "$y.a = 2"), opt("r", "$x.y.a = 3"))
    yield "nest ref", '<fields><bundle name="B">%s</bundle></fields>' % core, {}, '<ref name="r" field="B"/>' + opt("q", "$r.a = 2") + opt("w", "$?r.o")
    yield "nest refopt", '<fields>%s<set name="S" length="1"><bit name="k" idx="3"/></set></fields>' % opt("O", None, I("f")), {}, '<ref name="s" field="S"/><ref name="r" field="O"/>' + opt("q", "$?r") + opt("w", "$s.k") + opt("x", "$r.f = 1")
    yield "nest length", "", {}, '<bundle name="x">%s%s%s</bundle>' % (I("len", semanticType="length"), I("a"), opt("o", "$a = 1", I("f", "uint16")))
    for k in ("str", "data", "list"):
        x = {"str": '<string name="t" lengthPrefix="$n"/>', "data": '<data name="t" lengthPrefix="$n"/>', "list": '<list name="t" countPrefix="$n"><element>%s</element></list>' % I("e")}[k]
        yield "nest det %s" % k, "", {}, I("n") + x + opt("o", "$n > 0") + opt("p", "$#t = 1")


IFC = '<interface name="Message"><set name="flags" length="1"><bit name="g0" idx="0"/><bit name="g3" idx="3"/></set><int name="num" type="int16"/><enum name="kind" type="uint8"><validValue name="A" val="1"/><validValue name="B" val="7"/></enum>' \
      '<bundle name="bun"><int name="x" type="uint8"/><set name="y" length="1"><bit name="h" idx="1"/></set></bundle></interface>'
# transport field assignments worth trying
T0 = [[]] + [["t0=%d" % v] for v in (1, 8, 9, 255)]
T1 = [[]] + [["t1=%d" % v] for v in (1, -1, 5, -300, 32767)]
T2 = [[]] + [["t2=%d" % v] for v in (1, 7, 200)]
T3 = [[], ["t3.0=3"], ["t3.1=2"], ["t3.0=3", "t3.1=2"], ["t3.0=255", "t3.1=253"]]


def iface():
    ex = [("%flags.g0", T0), ("!%flags.g3", T0), ("%num = 5", T1), ("%num < 0", T1), ("%num >= -1", T1), ("%kind = B", T2), ("%kind != A", T2), ("%kind > 1", T2), ("%bun.x = 3", T3), ("%bun.y.h", T3), ("!%bun.y.h", T3),
          (AND("%flags.g0", "!%flags.g3"), T0), (OR("%flags.g0", "%flags.g3"), T0), (AND("%flags.g0", "%num > 0"), [a + b for a in T0[:4] for b in T1[:4]]), (OR("%num = 1", "%kind = B"), [a + b for a in T1[:4] for b in T2[:3]])]
    for e, ts in ex:
        yield "if %s" % e, "", {}, I("a") + opt("o", e), ts
        yield "if more %s" % e, "", {}, I("a") + opt("o", AND(e, "$a = 1")) + opt("p", OR(e, "$a = 1")), ts
        for k in ("readCond", "validCond", "construct", "constructAsReadCond"):
            at, kid = {}, ""
            if k == "constructAsReadCond":
                at = {k: "true", "construct": e} if e[0] != "<" else {k: "true"}
                kid = "" if e[0] != "<" else "<construct>%s</construct>" % e.replace("<cond value", "<construct value")
            elif e[0] == "<":
                kid = "<%s>%s</%s>" % (k, e.replace("<cond value", "<%s value" % k), k)
            else:
                at = {k: e}
            for f in (None, "true"):
                if f and k not in ("validCond", "readCond"):
                    continue
                body = Z() + '<string name="t"><lengthPrefix>%s</lengthPrefix></string>' % I("l")
                yield "if %s %s %s" % (k, e, f), "", dict(at, **({"failOnInvalid": f} if f else {})), kid + ("<fields>%s</fields>" % body), ts
    for o in OPS:
        ts = [a for a in T1] + [a + b for a in T1[1:3] for b in T3[1:2]]
        yield "if field %s" % o, "", {}, I("a", "int16") + opt("o", "$a %s %%num" % o) + opt("p", "%%num %s $a" % o) + opt("q", "%%num %s %%bun.x" % o), ts
    for e in ("%num = 5", "%flags.g0", "!%flags.g3", "%kind = B", "%num = %bun.x"):
        yield "if construct valid %s" % e, "", {"construct": e, "constructAsReadCond": "true", "constructAsValidCond": "true"}, Z(), T0 + T1
    yield "if both", "", {"readCond": "%num = 5", "validCond": "$z = 1", "failOnInvalid": "true"}, Z(), T1
    for f in (None, "true"):
        yield "if valid fields %s" % f, "", dict({"validCond": "$z != %num"}, **({"failOnInvalid": f} if f else {})), Z() + I("y"), T1
        yield "if valid prep %s" % f, "", dict({"validCond": "$z != %num"}, **({"failOnInvalid": f} if f else {})), Z() + opt("o", "$z = 1") + opt("p", "%num = 1"), T1
        yield "if read prep %s" % f, "", dict({"readCond": "%num > 0"}, **({"failOnInvalid": f} if f else {})), Z() + opt("o", "$z = 1"), T1


def validconds():
    for c in ("$a = 1", "$a < $b", "$a != $b", AND("$a > 1", "$b > 1"), OR("$a = 0", "$b = 0"), "$?o", "$o.f = 3", "$s.b0", "!$s.b0"):
        for f in (None, "true"):
            core = I("a") + I("b") + BITS + opt("o", "$s.b1")
            at = {"failOnInvalid": f} if f else {}
            mk = lambda tag, extra: ("", dict({tag: c}, **at)) if c[0] != "<" else ("<%s>%s</%s>" % (tag, c.replace("<cond value", "<%s value" % tag), tag), at)
            kid, a = mk("validCond", 0)
            yield "vc msg %s %s" % (c, f), "", a, kid + "<fields>%s</fields>" % core
            yield "vc bundle %s %s" % (c, f), "", {}, el("bundle", dict({"name": "x"}, **a), kid + "<members>%s</members>" % core) + Z()
            if "o" not in c:
                bf = I("a", bitLength="2") + I("b", bitLength="3") + '<set name="s" bitLength="3"><bit name="b0" idx="0"/></set>'
                yield "vc bitfield %s %s" % (c, f), "", {}, el("bitfield", dict({"name": "x"}, **a), kid + "<members>%s</members>" % bf) + Z()


SPANS = [("2", None, None), (None, "3", "true"), (None, "3", None), ("2", "4", "true"), ("2", "4", None), ("4", None, None), ("1", "5", "true"), ("5", None, None)]


def at(s, d, r): return {k: v for k, v in (("sinceVersion", s), ("deprecated", d), ("removed", r)) if v}


def versions():
    for s, d, r in SPANS:
        k = "%s-%s %s" % (s, d, r)
        a = at(s, d, r)
        for n, x in (("int", I("f", "uint16", **a)), ("enum", el("enum", dict({"name": "f", "type": "uint8"}, **a), vv("A", "1"))), ("set", el("set", dict({"name": "f", "length": "1"}, **a), bit("q", 1))), ("string", el("string", dict({"name": "f", "length": "2"}, **a))),
                     ("bundle", el("bundle", dict({"name": "f"}, **a), I("a") + I("b"))), ("list", el("list", dict({"name": "f", "count": "2"}, **a), I("e"))), ("optional", opt("f", "$z = 1", **a)),
                     ("bitfield", el("bitfield", dict({"name": "f"}, **a), I("a", bitLength="4") + I("b", bitLength="4"))), ("variant", el("variant", dict({"name": "f"}, **a), I("m") + I("n", "uint16"))), ("float", el("float", dict({"name": "f", "type": "float"}, **a)))):
            yield "v ver msg %s %s" % (n, k), "", {}, Z() + x
            if n in ("int", "bundle", "optional", "string"):
                yield "v ver bundle %s %s" % (n, k), "", {}, '<bundle name="x">%s</bundle>' % (Z() + x + I("y"))
                yield "v ver element %s %s" % (n, k), "", {}, '<list name="l"><countPrefix>%s</countPrefix><element><bundle name="x">%s</bundle></element></list>' % (I("n"), Z() + x)
                yield "v ver opt %s %s" % (n, k), "", {}, opt("p", None, '<bundle name="x">%s</bundle>' % (Z() + x), defaultMode="missing")
                yield "v ver variant %s %s" % (n, k), "", {}, '<variant name="v"><bundle name="m"><int name="k" type="uint8" validValue="1" defaultValue="1" failOnInvalid="true"/>%s</bundle><bundle name="n"><int name="k" type="uint8" validValue="2" defaultValue="2" failOnInvalid="true"/></bundle></variant>' % (Z() + x)
        yield "v ver first %s" % k, "", {}, I("f", "uint16", **a) + Z()
        yield "v ver refs %s" % k, "<fields>%s</fields>" % I("G", "uint16"), {}, Z() + el("ref", dict({"name": "r", "field": "G"}, **a))
        yield "v ver refd %s" % k, '<fields>%s<bundle name="BB">%s%s</bundle></fields>' % (I("GG", "uint16", **a), Z(), I("f", **a)), {}, Z() + '<ref name="r" field="GG"/><ref name="q" field="BB"/>'
        yield "v ver cond on %s" % k, "", {}, Z() + I("c", **a) + opt("o", "$c = 1") + opt("p", "$c != 1")
        yield "v ver cond both %s" % k, "", {}, I("c") + opt("o", "$c = 1", **a) + opt("p", "$?o")
        yield "v ver cond iface %s" % k, "", {}, I("c") + opt("o", "%Ver >= 3", **a)
        yield "v ver det %s" % k, "", {}, Z() + I("n", **a) + '<string name="t" lengthPrefix="$n"/>'
        yield "v ver det2 %s" % k, "", {}, I("n") + el("string", dict({"name": "t", "lengthPrefix": "$n"}, **a))
        for s2, d2, r2 in SPANS:
            yield "v ver pair %s %s-%s %s" % (k, s2, d2, r2), "", {}, I("f", "uint8", **a) + I("g", "uint16", **at(s2, d2, r2)) + Z()
            if s is None or (s2 or "0") >= s:
                yield "v ver inner %s %s-%s %s" % (k, s2, d2, r2), "", {}, Z() + el("bundle", dict({"name": "x"}, **a), I("f") + I("g", "uint16", **at(s2, d2, r2)))
        yield "v ver msgattr %s" % k, "", at(s, d, r), Z() + I("f", "uint16") + I("g", sinceVersion="4")


PLAIN = [("values", values), ("bools", bools), ("exists", exists), ("fields", fields), ("modes", modes), ("nested", nested), ("validconds", validconds)]
IFACE = [("iface", iface)]
VER = [("versions", versions)]


def batches(note=None):
    out = sem.batches(PLAIN, configs=sem.CONFIGS[:1], note=note)
    out += sem.batches(IFACE, configs=[("if", [], {}, IFC, [None]), ("ifver", [], {}, IFC.replace("</interface>", '<int name="Ver" type="uint8" semanticType="version"/></interface>'), [None])], note=note, only=None)
    out += sem.batches(VER, configs=sem.CONFIGS[1:], note=note)
    return out
