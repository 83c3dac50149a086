"""Pairs of definitions which have to mean the same: with reuse, and written out."""
import copy, itertools
from . import zoo, spell
from .spell import Node, parse, text
from .fam import schema

ANY = {"displayName": ["Other name"], "description": ["Other text"], "customizable": ["true"], "failOnInvalid": ["true"], "displayReadOnly": ["true"], "displayHidden": ["true"], "forceGen": ["true"], "fixedValue": ["true"], "pseudo": ["true"], "semanticType": ["length", "version"]}
BY = {
    "int": {"defaultValue": ["1", "0x2"], "units": ["mm"], "scaling": ["2/3"], "displayDecimals": ["1"], "displayOffset": ["4"], "serOffset": ["1", "-1"], "endian": ["little", "big"], "validCheckVersion": ["true"], "signExt": ["false"], "displaySpecials": ["true"],
            "availableLengthLimit": ["true"], "nonUniqueSpecialsAllowed": ["true"], "validRange": ["[0, 3]"], "validValue": ["4"], "validMin": ["2"], "validMax": ["9"]},
    "enum": {"defaultValue": ["1", "V1"], "endian": ["little", "big"], "validCheckVersion": ["true"], "nonUniqueAllowed": ["true"], "hexAssign": ["true"], "availableLengthLimit": ["true"]},
    "set": {"defaultValue": ["true", "false"], "endian": ["little", "big"], "validCheckVersion": ["true"], "nonUniqueAllowed": ["true"], "reservedValue": ["true"], "availableLengthLimit": ["true"]},
    "float": {"defaultValue": ["1.5", "nan"], "units": ["mm"], "endian": ["little", "big"], "displayDecimals": ["1"], "validFullRange": ["true"], "validCheckVersion": ["true"], "nonUniqueSpecialsAllowed": ["true"], "validRange": ["[0.5, 3]"], "validValue": ["inf"], "displaySpecials": ["true"]},
    "bitfield": {"endian": ["little", "big"]}, "bundle": {},
    "string": {"defaultValue": ["x"], "encoding": ["ascii"], "length": ["4", "20"], "zeroTermSuffix": ["true"], "defaultValidValue": [], "validValue": ["x"]},
    "data": {"defaultValue": ["01"], "length": ["4"], "validValue": ["01 02"]},
    "list": {"count": ["4"], "elemFixedLength": ["true"]},
    "optional": {"defaultMode": ["missing", "exists", "tentative"], "missingOnReadFail": ["true"], "missingOnInvalid": ["true"], "displayExtModeCtrl": ["true"]},
    "variant": {"defaultMember": ["0", "1"], "displayIdxReadOnlyHidden": ["true"]},
    "ref": {},
}
# what is added to what there is
KIDS = {
    "int": [Node("special", [("name", "Added"), ("val", "1")]), Node("validRange", [("value", "[20, 21]")]), Node("validValue", [("value", "5")])],
    "enum": [Node("validValue", [("name", "Added"), ("val", "77")])],
    "set": [Node("bit", [("name", "Added"), ("idx", "5")])],
    "float": [Node("special", [("name", "Added"), ("val", "2.5")])],
    "string": [Node("validValue", [("value", "yy")])],
}


def named(n, name):
    c = copy.deepcopy(n)
    c.attrs = [(k, name if k == "name" else v) for k, v in c.attrs]
    return c


def overrides(n):
    """(label, attributes, children)"""
    yield "none", [], []
    for a, vs in list(ANY.items()) + list(BY[n.tag].items()):
        for v in vs:
            if a == "serOffset" and {"validMin", "validMax", "serOffset"} & set(dict(n.attrs)):
                # open ends of ranges are settled where they are defined
                continue
            yield "%s=%s" % (a, v), [(a, v)], []
    for k in KIDS.get(n.tag, ()):
        yield "+" + k.tag, [], [k]


def merged(n, name, attrs, kids):
    c = named(n, name)
    new = dict(attrs)
    if c.tag == "set":
        # what the bits have is settled where they are defined
        own = dict(c.attrs)
        for b in [k for k in c.kids if not isinstance(k, str) and k.tag == "bit"]:
            have = dict(b.attrs)
            for a, dflt in (("defaultValue", "false"), ("reservedValue", "false")):
                if a in new and a not in have:
                    b.attrs.append((a, own.get(a, dflt)))
    # these add to what there is
    more = [(a, new.pop(a)) for a in ("validRange", "validValue") if a in new and a in dict(c.attrs)]
    kids = list(kids) + [Node(a, [("value", v)]) for a, v in more]
    c.attrs = [(k, new.pop(k, v)) for k, v in c.attrs] + list(new.items())
    if kids:
        spell.wrapped(c)
        c.kids += copy.deepcopy(kids)
    return c


def reusing(n, name, base, attrs, kids):
    return Node(n.tag, [("name", name), ("reuse", base)] + list(attrs), copy.deepcopy(kids))


def doc(globals_, body, extra=""):
    """texts of the elements"""
    g = parse("<x>" + zoo.G + "</x>").kids
    root = Node("schema", [("name", "s"), ("id", "1"), ("version", "5"), ("dslVersion", "8"), ("endian", "big")], [Node("fields", [], g), parse(zoo.NS)])
    if globals_:
        root.kids.append(Node("fields", [], globals_))
    root.kids += body
    return root


PLACES = {
    "global": lambda x: [Node("fields", [], [x])],
    "message": lambda x: [Node("message", [("name", "M"), ("id", "1")], [x])],
    "bundle": lambda x: [Node("message", [("name", "M"), ("id", "1")], [Node("bundle", [("name", "b")], [Node("int", [("name", "lead"), ("type", "uint8")]), x])])],
    "element": lambda x: [Node("message", [("name", "M"), ("id", "1")], [Node("list", [("name", "l"), ("count", "2")], [x])])],
    "optional": lambda x: [Node("message", [("name", "M"), ("id", "1")], [Node("optional", [("name", "o")], [x])])],
    "variant": lambda x: [Node("message", [("name", "M"), ("id", "1")], [Node("variant", [("name", "v")], [x, Node("int", [("name", "z"), ("type", "uint8")])])])],
    "interface": lambda x: [Node("interface", [("name", "Ifc")], [x])],
    "bitfield": lambda x: [Node("fields", [], [Node("bitfield", [("name", "bf")], [x, Node("int", [("name", "z"), ("type", "uint8"), ("bitLength", str(8 - int(dict(x.attrs).get("bitLength", "8")) or 8))])])])],
}


def kinds():
    for i, x in enumerate(zoo.K):
        if "sinceVersion" in x[1].split(">")[0]:
            continue
        yield x[0], parse(x[1].replace("{n}", "Base")), x[2]


def fields():
    """every kind of field reused in every place with every property overridden"""
    for key, base, no in kinds():
        if dict(base.attrs).get("bitLength"):
            bl = dict(base.attrs)["bitLength"]
            for olabel, attrs, kids in overrides(base):
                if attrs and attrs[0][0] in ("length", "endian"):
                    continue
                a = reusing(base, "x", "Base", [("bitLength", bl)] + attrs, kids)
                b = merged(base, "x", attrs, kids)
                ra, rb = Node("schema"), None
                bf = lambda x: [Node("fields", [], [Node("bitfield", [("name", "bf")], [x] + ([Node("int", [("name", "z"), ("type", "uint8"), ("bitLength", str(8 - int(bl)))])] if bl != "8" else []))])]
                yield "field|%s|bitfield|%s" % (key, olabel), doc([copy.deepcopy(base)], bf(a)), doc([copy.deepcopy(base)], bf(b))
            continue
        for place, f in PLACES.items():
            if place == "bitfield":
                continue
            for olabel, attrs, kids in overrides(base):
                if place != "global" and place != "message" and olabel != "none" and not olabel.startswith(("default", "display", "+")):
                    continue
                yield "field|%s|%s|%s" % (key, place, olabel), doc([copy.deepcopy(base)], f(reusing(base, "x", "Base", attrs, kids))), doc([copy.deepcopy(base)], f(merged(base, "x", attrs, kids)))


def chains():
    """reuse of what reuses: two overrides in two steps, and in namespaces"""
    for key, base, no in kinds():
        if dict(base.attrs).get("bitLength"):
            continue
        os = [o for o in overrides(base)]
        for (l1, a1, k1), (l2, a2, k2) in itertools.product(os, repeat=2):
            if l2.startswith("serOffset") and l1.startswith(("validM", "serOffset")):
                continue
            if l1.split("=")[0] == l2.split("=")[0] and l1 != l2 or (k1 and k2) or l1.startswith(("forceGen", "displayHidden", "displayReadOnly")) or l2.startswith(("forceGen", "displayHidden", "displayReadOnly", "failOn", "custom")):
                continue
            mid = reusing(base, "Mid", "Base", a1, k1)
            full = merged(base, "Mid", a1, k1)
            a = doc([copy.deepcopy(base), mid], PLACES["message"](reusing(base, "x", "Mid", a2, k2)))
            b = doc([copy.deepcopy(base), full], PLACES["message"](merged(full, "x", a2, k2)))
            yield "chain|%s|%s|%s" % (key, l1, l2), a, b
        inner = Node("ns", [("name", "q")], [Node("fields", [], [reusing(base, "Mid", "Base", [], [])])])
        inner2 = Node("ns", [("name", "q")], [Node("fields", [], [named(base, "Mid")])])
        yield "chain|%s|ns" % key, doc([copy.deepcopy(base)], [inner] + PLACES["message"](reusing(base, "x", "q.Mid", [], []))), doc([copy.deepcopy(base)], [inner2] + PLACES["message"](named(base, "x")))


BASES2 = [("bun.vc", '<bundle name="Base"><members><int name="m1" type="uint8"/><set name="m2" length="1"><bit name="b" idx="0"/></set><int name="m3" type="uint8"/></members><validCond><or><validCond value="$m1 != 2"/><validCond value="$m2.b"/></or></validCond></bundle>'),
          ("bun.al", '<bundle name="Base"><members><int name="m1" type="uint8"/><bundle name="m2"><int name="q" type="uint8"/></bundle></members><alias name="a1" field="$m1"/><alias name="a2" field="$m2.q"/></bundle>'),
          ("bun.pre", '<bundle name="Base"><int name="m1" type="uint8"/><int name="m2" type="uint8"/><string name="m3" lengthPrefix="$m1"/><list name="m4" countPrefix="$m2"><int name="e" type="uint8"/></list><data name="m5" lengthPrefix="$m2"/></bundle>'),
          ("bun.opt", '<bundle name="Base"><int name="m1" type="uint8"/><optional name="m2"><field><int name="q" type="uint8"/></field><cond value="$m1 = 3"/></optional><optional name="m3"><field><int name="q" type="uint8"/></field><cond value="$m1 = 1"/></optional></bundle>'),
          ("bun.sem", '<bundle name="Base"><int name="m1" type="uint8" semanticType="length"/><int name="m2" type="uint8"/></bundle>')]
REPL = ['<int name="{n}" type="uint32" length="3" defaultValue="9"/>', '<string name="{n}" length="3"/>', '<bundle name="{n}"><int name="i1" type="uint8"/><int name="i2" type="uint8"/></bundle>', '<enum name="{n}" type="uint8"><validValue name="Z" val="3"/></enum>',
        '<set name="{n}" length="2"><bit name="b" idx="1"/></set>', '<optional name="{n}"><field><int name="q" type="uint8"/></field><cond value="$m3 != 1"/></optional>', '<optional name="{n}"><field><int name="q" type="uint8"/></field><cond value="$m1 != 1"/></optional>', '<data name="{n}" lengthPrefix="$m1"/>']


def compound(n):
    for c in n.kids:
        if not isinstance(c, str) and c.tag == "members":
            return c
    return n


def member_names(n):
    return [dict(m.attrs).get("name") for m in compound(n).kids if not isinstance(m, str) and m.tag in spell.FIELD]


def replace():
    """members replaced and added"""
    for key, base, no in list(kinds()) + [(k, parse(t), "") for k, t in BASES2]:
        if base.tag not in ("bundle", "variant", "bitfield"):
            continue
        names = member_names(base)
        sets = [[x] for x in names] + [list(c) for c in itertools.combinations(names, 2)] + [names]
        for ns in sets:
            for r in REPL if base.tag != "bitfield" else ['<int name="{n}" type="uint8" bitLength="{b}" defaultValue="1"/>', '<set name="{n}" bitLength="{b}"><bit name="Z" idx="0"/></set>']:
                for add in (None, "members", "plain"):
                    if base.tag == "bitfield" and add:
                        continue
                    repl = []
                    full = named(base, "x")
                    for m in ns:
                        old = next(k for k in compound(full).kids if not isinstance(k, str) and dict(k.attrs).get("name") == m)
                        new = parse(r.replace("{n}", m).replace("{b}", dict(old.attrs).get("bitLength", "1")))
                        repl.append(new)
                        ks = compound(full).kids
                        ks[ks.index(old)] = copy.deepcopy(new)
                    a = Node(base.tag, [("name", "x"), ("reuse", "Base")], [Node("replace", [], repl)])
                    if add:
                        extra = Node("int", [("name", "zz"), ("type", "uint16")])
                        a.kids.append(Node("members", [], [extra]) if add == "members" else extra)
                        compound(full).kids.append(copy.deepcopy(extra))
                        if add == "plain":
                            continue
                    yield "replace|%s|%s|%s|%s" % (key, "+".join(ns), r.split()[0][1:], add), doc([copy.deepcopy(base)], PLACES["message"](a)), doc([copy.deepcopy(base)], PLACES["message"](full))


def versioned(attrs):
    return bool({"sinceVersion", "deprecated"} & set(dict(attrs)))


MSGATTR = [[], [("displayName", "Other")], [("description", "Text")], [("sender", "server")], [("order", "3")], [("customizable", "true")], [("deprecated", "4")], [("sinceVersion", "2")], [("validateMinLength", "1")], [("failOnInvalid", "true")], [("platforms", "+p1")]]


def messages():
    """messages and interfaces which reuse, or take the fields of, others"""
    plat = Node("platforms", [], [Node("platform", [("name", "p1")]), Node("platform", [("name", "p2")])])
    fs = [Node("int", [("name", "a"), ("type", "uint8"), ("displayName", "A")]), Node("set", [("name", "f"), ("length", "1")], [Node("bit", [("name", "b0"), ("idx", "0")])]),
          parse('<optional name="o" defaultMode="missing"><field><int name="in" type="uint8"/></field><cond value="$f.b0"/></optional>'), parse('<ref name="r" field="G2"/>'), parse('<string name="s" length="2" sinceVersion="2"/>')]
    alias = Node("alias", [("name", "al"), ("field", "$a"), ("description", "An alias")])
    conds = [Node("validCond", [("value", "$a != 3")]), Node("readCond", [("value", "%v = 1")]), Node("construct", [("value", "%v = 1")])]
    ifc = parse('<interface name="I"><int name="v" type="uint8"/></interface>')

    def d(*body): return doc([], [copy.deepcopy(plat), copy.deepcopy(ifc)] + [copy.deepcopy(b) for b in body])
    def msg(name, id, attrs, fields, kids=()):
        return Node("message", [("name", name), ("id", id)] + list(attrs), [Node("fields", [], copy.deepcopy(fields))] + copy.deepcopy(list(kids)))

    # message reuse: the properties of the base with what is overridden
    for battr in MSGATTR:
        for oattr in MSGATTR:
            # the versions are not reused
            if versioned(battr) or versioned(oattr):
                continue
            for kids in ([], [alias], conds[:1], conds[1:2], conds[2:]):
                base = msg("B", "1", battr, fs, kids)
                a = Node("message", [("name", "M"), ("reuse", "B"), ("id", "2")] + oattr)
                m = dict(battr)
                m.update(oattr)
                yield "message|reuse|%s|%s|%s" % (battr, oattr, [k.tag for k in kids]), d(base, a), d(base, msg("M", "2", list(m.items()), fs, kids))
    # fields added to what is reused
    extra = [Node("int", [("name", "e"), ("type", "uint32")]), parse('<bundle name="e2"><int name="k" type="uint8"/></bundle>')]
    for kids in ([], [alias], conds[:1], [alias] + conds[:1]):
        base = msg("B", "1", [], fs, kids)
        yield "message|reuse and add|%d" % len(kids), d(base, Node("message", [("name", "M"), ("reuse", "B"), ("id", "2")], [Node("fields", [], copy.deepcopy(extra))])), d(base, msg("M", "2", [], fs + extra, kids))
        for n in range(1, 4):
            for c in itertools.combinations(range(len(fs)), n):
                for r in REPL[:3]:
                    repl = [parse(r.replace("{n}", dict(fs[i].attrs)["name"])) for i in c]
                    if kids and 0 in c and "string" in r and False:
                        continue
                    nfs = [repl[c.index(i)] if i in c else f for i, f in enumerate(fs)]
                    for how in ("reuse", "copyFieldsFrom"):
                        for ad in ([], extra):
                            a = Node("message", [("name", "M"), (how, "B"), ("id", "2")], [Node("replace", [], copy.deepcopy(repl))] + ([Node("fields", [], copy.deepcopy(ad))] if ad else []))
                            yield "message|%s and replace|%s|%s|%d|%d" % (how, c, r.split()[0], len(ad), len(kids)), d(base, a), d(base, msg("M", "2", [], nfs + ad, kids if how == "reuse" else [k for k in kids if k.tag == "alias"]))
    # names of aliases taken by what is added
    for nm in ("al", "Al", "b"):
        e = [Node("int", [("name", nm), ("type", "uint8")])]
        base = msg("B", "1", [], fs, [alias])
        for how in ("reuse", "copyFieldsFrom"):
            yield "message|alias|%s|%s" % (how, nm), d(base, Node("message", [("name", "M"), (how, "B"), ("id", "2")], [Node("fields", [], copy.deepcopy(e))])), d(base, msg("M", "2", [], fs + e, [alias]))
        bun = Node("fields", [], [Node("bundle", [("name", "B")], [Node("members", [], copy.deepcopy(fs)), copy.deepcopy(alias)])])
        full = Node("bundle", [("name", "x")], [Node("members", [], copy.deepcopy(fs + e)), copy.deepcopy(alias)])
        yield "message|alias|bundle|%s" % nm, d(bun, Node("message", [("name", "M"), ("id", "1")], [Node("bundle", [("name", "x"), ("reuse", "B")], [Node("members", [], copy.deepcopy(e))])])), d(bun, Node("message", [("name", "M"), ("id", "1")], [full]))
        bi = Node("interface", [("name", "B")], [Node("fields", [], copy.deepcopy(fs[:2])), copy.deepcopy(alias)])
        for how in ("reuse", "copyFieldsFrom"):
            yield "message|alias|interface %s|%s" % (how, nm), d(bi, Node("interface", [("name", "M"), (how, "B")], [Node("fields", [], copy.deepcopy(e))])), d(bi, Node("interface", [("name", "M")], [Node("fields", [], copy.deepcopy(fs[:2] + e)), copy.deepcopy(alias)]))
    # the fields of a message, bundle or interface
    for battr in MSGATTR:
        for kids in ([], [alias]):
            for al in (None, "true", "false"):
                base = msg("B", "1", battr, fs, kids)
                bun = Node("fields", [], [Node("bundle", [("name", "B")], [Node("members", [], copy.deepcopy(fs))] + copy.deepcopy(kids))])
                bi = Node("interface", [("name", "B")], [Node("fields", [], copy.deepcopy(fs[:2] + fs[3:4]))] + copy.deepcopy(kids))
                for what, b, ff in (("message", base, fs), ("bundle", bun, fs), ("interface", bi, fs[:2] + fs[3:4])):
                    if what != "message" and battr or versioned(battr):
                        continue
                    at = [("name", "M"), ("copyFieldsFrom", "B"), ("id", "2")] + ([("copyFieldsAliases", al)] if al else [])
                    kk = kids if al != "false" else []
                    if what != "interface":
                        yield "copy|message from %s|%s|%d|%s" % (what, battr, len(kids), al), d(b, Node("message", at)), d(b, msg("M", "2", [], ff, kk))
                        yield "copy|message from %s and add|%s|%d|%s" % (what, battr, len(kids), al), d(b, Node("message", at, [Node("fields", [], copy.deepcopy(extra))])), d(b, msg("M", "2", [], ff + extra, kk))
                    if what != "message":
                        at2 = [("name", "M"), ("copyFieldsFrom", "B")] + ([("copyFieldsAliases", al)] if al else [])
                        src = ff if what == "interface" else fs[:2]
                        if what == "bundle":
                            b = Node("fields", [], [Node("bundle", [("name", "B")], [Node("members", [], copy.deepcopy(src))] + copy.deepcopy(kids))])
                        yield "copy|interface from %s|%d|%s" % (what, len(kids), al), d(b, Node("interface", at2)), d(b, Node("interface", [("name", "M")], [Node("fields", [], copy.deepcopy(src))] + copy.deepcopy(kk)))
    bi = Node("interface", [("name", "B"), ("description", "txt")], [Node("fields", [], copy.deepcopy(fs[:2])), copy.deepcopy(alias)])
    for ra in (None, "true", "false"):
        at = [("name", "M"), ("reuse", "B")] + ([("reuseAliases", ra)] if ra else [])
        kk = [copy.deepcopy(alias)] if ra != "false" else []
        yield "interface|reuse|%s" % ra, d(bi, Node("interface", at)), d(bi, Node("interface", [("name", "M"), ("description", "txt")], [Node("fields", [], copy.deepcopy(fs[:2]))] + kk))
        yield "interface|reuse add|%s" % ra, d(bi, Node("interface", at, [Node("fields", [], copy.deepcopy(extra))])), d(bi, Node("interface", [("name", "M"), ("description", "txt")], [Node("fields", [], copy.deepcopy(fs[:2] + extra))] + kk))
        mb = msg("B", "1", [], fs, [alias])
        yield "message|reuse aliases|%s" % ra, d(mb, Node("message", [("name", "M"), ("reuse", "B"), ("id", "2")] + at[2:])), d(mb, msg("M", "2", [], fs, kk))


def values():
    """named values in the place of the numbers"""
    g = ('<fields><enum name="E" type="uint16"><validValue name="A" val="1"/><validValue name="B" val="0x12"/></enum><int name="I" type="int16" defaultValue="-7"><special name="S" val="200"/></int><set name="St" length="2"><bit name="b" idx="9"/></set>'
         '<float name="F" type="double" defaultValue="1.25"><special name="S" val="2.5"/></float><string name="Str" defaultValue="text"/><data name="D" defaultValue="0102"/><bundle name="Bu"><int name="m" type="uint8" defaultValue="11"/><enum name="e" type="uint8"><validValue name="Q" val="6"/></enum></bundle></fields>')
    nums = {"E.A": "1", "E.B": "18", "I": "-7", "I.S": "200", "Bu.m": "11", "Bu.e.Q": "6", "n1.n2.G5.V1": "1"}
    for ref, num in nums.items():
        for where in ('<int name="x" type="int32" defaultValue="%s"/>', '<int name="x" type="int32" validValue="%s"/>', '<int name="x" type="int32" validRange="[%s, 1000]"/>', '<int name="x" type="int32"><special name="SS" val="%s"/></int>', '<enum name="x" type="int32"><validValue name="W" val="%s"/></enum>',
                      '<float name="x" type="double" defaultValue="%s"/>',                       '<int name="x" type="int32" validMin="%s"/>', '<int name="x" type="int32" validMax="%s"/>', '<variant name="x" defaultMember="%s"><int name="m" type="uint8"/><int name="m2" type="uint8"/></variant>'):
            if "defaultMember" in where and int(num) < 0:
                continue
            yield "value|%s|%s" % (ref, where), schema(zoo.NS + g + '<message name="M" id="9">' + where % ref + "</message>", "s", dslVersion="8", version="5"), schema(zoo.NS + g + '<message name="M" id="9">' + where % num + "</message>", "s", dslVersion="8", version="5")
        if ref in ("E.A", "E.B", "n1.n2.G5.V1"):
            m = zoo.NS + g + '<message name="M" id="%s"/>'
            yield "value|%s|id" % ref, schema(m % ref, "s", dslVersion="8"), schema(m % num, "s", dslVersion="8")
    for ref, txt, where in (("Str", "text", '<string name="x" defaultValue="%s"/>'), ("Str", "text", '<string name="x" validValue="%s"/>'), ("D", "0102", '<data name="x" defaultValue="%s"/>'), ("F", "1.25", '<float name="x" type="double" defaultValue="%s"/>'), ("F.S", "2.5", '<float name="x" type="double" validValue="%s"/>')):
        r = "^" + ref if where.startswith(("<string", "<data")) else ref
        yield "value|%s|%s" % (r, where), schema(zoo.NS + g + '<message name="M" id="9">' + where % r + "</message>", "s", dslVersion="8", version="5"), schema(zoo.NS + g + '<message name="M" id="9">' + where % txt + "</message>", "s", dslVersion="8", version="5")


def refs():
    """definitions in other namespaces and schemas instead of in the same one"""
    for key, base, no in kinds():
        if dict(base.attrs).get("bitLength"):
            continue
        for place, f in PLACES.items():
            if place == "bitfield":
                continue
            for path, wrapns in (("q.Base", ["q"]), ("q.w.Base", ["q", "w"])):
                inner = Node("fields", [], [copy.deepcopy(base)])
                for n in reversed(wrapns):
                    inner = Node("ns", [("name", n)], [inner])
                yield "far|%s|%s|%s" % (key, place, path), doc([], [copy.deepcopy(inner)] + f(reusing(base, "x", path, [], []))), doc([], [copy.deepcopy(inner)] + f(named(base, "x")))


def schemas():
    """definitions in another schema"""
    other = lambda x: Node("schema", [("name", "o"), ("id", "2"), ("version", "5"), ("dslVersion", "8"), ("endian", "big")], [Node("fields", [], parse("<x>" + zoo.G + "</x>").kids), parse(zoo.NS)] + x)
    for key, base, no in kinds():
        if dict(base.attrs).get("bitLength"):
            continue
        for wrapns in ([], ["q"]):
            inner = Node("fields", [], [copy.deepcopy(base)])
            for n in wrapns:
                inner = Node("ns", [("name", n)], [inner])
            ref = "@o." + ".".join(wrapns + ["Base"])
            o = spell.text(other([inner]))
            for olabel, attrs, kids in overrides(base):
                yield "schemas|%s|reuse %d|%s" % (key, len(wrapns), olabel), (o, doc([], PLACES["message"](reusing(base, "x", ref, attrs, kids)))), (o, doc([], PLACES["message"](merged(base, "x", attrs, kids))))
            # referenced there or here
            yield "schemas|%s|ref %d" % (key, len(wrapns)), (o, doc([copy.deepcopy(base)], PLACES["message"](Node("ref", [("name", "x"), ("field", ref)])))), (o, doc([copy.deepcopy(base)], PLACES["message"](Node("ref", [("name", "x"), ("field", "Base")]))))
    m = parse('<message name="B" id="1"><fields><int name="a" type="uint8"/><string name="t" length="3"/></fields><alias name="al" field="$a"/><validCond value="$a != 3"/></message>')
    i = parse('<interface name="B"><fields><int name="a" type="uint8"/><string name="t" length="3"/></fields><alias name="al" field="$a"/></interface>')
    for b, how in ((m, "reuse"), (m, "copyFieldsFrom"), (i, "reuse"), (i, "copyFieldsFrom")):
        o = spell.text(other([copy.deepcopy(b)]))
        n = Node(b.tag, [("name", "M"), (how, "@o.B")] + ([("id", "7")] if b.tag == "message" else []))
        f = named(b, "M")
        f.attrs = [(k, "7" if k == "id" else v) for k, v in f.attrs]
        if how != "reuse":
            f.kids = [k for k in f.kids if k.tag != "validCond"]
        yield "schemas|%s|%s" % (b.tag, how), (o, doc([], [n])), (o, doc([], [f]))


def removed():
    """what is removed already when it is reused"""
    ms = [Node("int", [("name", "m1"), ("type", "uint8")]), Node("set", [("name", "m2"), ("length", "1")], [Node("bit", [("name", "b"), ("idx", "0")])]), Node("int", [("name", "m3"), ("type", "uint16")])]
    users = [("optional", parse('<optional name="u"><field><int name="q" type="uint8"/></field><cond value="${r}"/></optional>')), ("list", parse('<list name="u" countPrefix="$m1"><int name="e" type="uint8"/></list>')), ("string", parse('<string name="u" lengthPrefix="$m1"/>')), ("nothing", Node("int", [("name", "u"), ("type", "uint8")])),
             ("alias", Node("alias", [("name", "u"), ("field", "$m1")])), ("alias of other", Node("alias", [("name", "u"), ("field", "$m3")])), ("validCond", Node("validCond", [("value", "$m1 != 3")])), ("other validCond", Node("validCond", [("value", "$m3 != 3")]))]
    for which in range(3):
        for un, u in users:
            u = copy.deepcopy(u)
            for k in u.kids:
                if k.tag == "cond":
                    k.attrs = [("value", ["$m1 = 2", "$m2.b", "$m3 != 1"][which])]
            base = copy.deepcopy(ms)
            base[which].attrs += [("deprecated", "3"), ("removed", "true")]
            asmem = u.tag in spell.FIELD
            mem = base + ([u] if asmem else [])
            left = [m for i, m in enumerate(mem) if i != which]
            for since in ("1", "2", "3", "4"):
                f = mem if since < "3" else left
                kk = [] if asmem else [u]
                full = copy.deepcopy(f)
                if since >= "3" and (un, which) in (("alias", 0), ("alias of other", 2)):
                    wk = []     # the aliases of what is removed are removed, too
                else:
                    wk = kk
                at = [("sinceVersion", since)]
                nb = Node("bundle", [("name", "Base")], [Node("members", [], copy.deepcopy(mem))] + copy.deepcopy(kk))
                yield "removed|bundle|%d|%s|%s" % (which, un, since), doc([nb], PLACES["message"](Node("bundle", [("name", "x"), ("reuse", "Base")] + at))), doc([nb], PLACES["message"](Node("bundle", [("name", "x")] + at, [Node("members", [], full)] + copy.deepcopy(wk))))
                if un.endswith("validCond"):
                    wk = []
                yield "removed|message|%d|%s|%s" % (which, un, since), doc([nb], [Node("message", [("name", "M"), ("id", "1"), ("copyFieldsFrom", "Base")] + at)]), doc([nb], [Node("message", [("name", "M"), ("id", "1")] + at, [Node("fields", [], copy.deepcopy(full))] + copy.deepcopy(wk))])


def inside():
    """every kind of field, conditions on members and aliases to members of members inside of what is reused or copied"""
    lead = [parse('<set name="f" length="1"><bit name="b0" idx="0"/></set>'), parse('<int name="n" type="uint8"/>')]
    conds = {"none": "", "attr": ' cond="$f.b0"', "cmp": ' cond="$n = 1"', "ne": ' cond="$n != $f"', "exists": ' cond="$?n"'}
    kid = '<or><and><cond value="$f.b0"/><cond value="$n &gt; 2"/></and><cond value="!$f.b0"/></or>'
    mem = [(k, n) for k, n, no in kinds() if not dict(n.attrs).get("bitLength") and "msg" not in no]
    mem = [(k, Node(n.tag, [(a, "x" if a == "name" else v) for a, v in n.attrs], copy.deepcopy(n.kids))) for k, n in mem]
    for ck, ct in conds.items():
        for mode in ("", ' defaultMode="missing"', ' defaultMode="exists"'):
            mem.append(("opt ext %s%s" % (ck, mode), parse('<optional name="x" field="G2"%s%s/>' % (ct, mode))))
            mem.append(("opt in %s%s" % (ck, mode), parse('<optional name="x"%s%s><field><bundle name="q"><int name="m1" type="uint8"/></bundle></field></optional>' % (ct, mode))))
    for how, t in (("ext", ' field="G2"'), ("in", "")):
        inner = "" if t else '<field><int name="q" type="uint8"/></field>'
        mem.append(("opt kids " + how, parse('<optional name="x"%s>%s%s</optional>' % (t, inner, kid))))
        mem.append(("opt of opt " + how, parse('<optional name="x"><field><bundle name="w"><set name="f" length="1"><bit name="b0" idx="0"/></set><optional name="y"%s>%s<cond value="$f.b0"/></optional></bundle></field></optional>' % (t, inner))))
    mem.append(("list of opt", parse('<list name="x" count="2"><element><bundle name="w"><set name="f" length="1"><bit name="b0" idx="0"/></set><optional name="y" field="G2" cond="$f.b0"/></bundle></element></list>')))
    mem.append(("variant of opt", parse('<variant name="x"><bundle name="w"><set name="f" length="1"><bit name="b0" idx="0"/></set><optional name="y" field="G2" cond="$f.b0"/></bundle></variant>')))
    mem.append(("deep", parse('<bundle name="x"><bundle name="m1"><bundle name="m2"><int name="m3" type="uint8"/></bundle></bundle></bundle>')))

    def paths(n):
        yield "$x"
        if n.tag in ("bundle", "bitfield"):
            pre, cur = "$x", n
            while cur.tag in ("bundle", "bitfield"):
                ks = [k for x in cur.kids for k in (x.kids if x.tag == "members" else [x]) if k.tag in ("int", "enum", "set", "float", "string", "data", "list", "bundle", "bitfield", "ref")]
                if not ks:
                    break
                cur = ks[-1]
                pre += "." + dict(cur.attrs)["name"]
                yield pre

    def el_(tag, attrs, fields, kids=()): return Node(tag, list(attrs), [Node("members" if tag == "bundle" else "fields", [], copy.deepcopy(fields))] + copy.deepcopy(list(kids)))
    wrapb = lambda x: [Node("message", [("name", "M"), ("id", "2")], [x])]
    for key, m in mem:
        fs = lead + [m]
        for pth in [None] + list(paths(m)):
            al = [] if pth is None else [Node("alias", [("name", "al"), ("field", pth), ("description", "An alias")])]
            lab = "inside|%s|%s" % (key, pth)
            bun, msg, ifc = el_("bundle", [("name", "B")], fs, al), el_("message", [("name", "B"), ("id", "1")], fs, al), el_("interface", [("name", "B")], fs, al)
            glob = lambda: [Node("fields", [], [copy.deepcopy(bun)])]
            yield lab + "|bundle", doc([], glob() + wrapb(Node("bundle", [("name", "y"), ("reuse", "B")]))), doc([], glob() + wrapb(el_("bundle", [("name", "y")], fs, al)))
            yield lab + "|bundle list", doc([], glob() + wrapb(Node("list", [("name", "l"), ("count", "2")], [Node("bundle", [("name", "y"), ("reuse", "B")])]))), doc([], glob() + wrapb(Node("list", [("name", "l"), ("count", "2")], [el_("bundle", [("name", "y")], fs, al)])))
            full = [el_("message", [("name", "M"), ("id", "2")], fs, al)]
            for how in ("reuse", "copyFieldsFrom"):
                yield lab + "|message " + how, doc([], [copy.deepcopy(msg), Node("message", [("name", "M"), (how, "B"), ("id", "2")])]), doc([], [copy.deepcopy(msg)] + copy.deepcopy(full))
            yield lab + "|message from bundle", doc([], glob() + [Node("message", [("name", "M"), ("copyFieldsFrom", "B"), ("id", "2")])]), doc([], glob() + copy.deepcopy(full))
            for how in ("reuse", "copyFieldsFrom"):
                yield lab + "|interface " + how, doc([], [copy.deepcopy(ifc), Node("interface", [("name", "M"), (how, "B")])]), doc([], [copy.deepcopy(ifc), el_("interface", [("name", "M")], fs, al)])
            yield lab + "|interface from bundle", doc([], glob() + [Node("interface", [("name", "M"), ("copyFieldsFrom", "B")])]), doc([], glob() + [el_("interface", [("name", "M")], fs, al)])


FAMILIES = {"inside": inside, "schemas": schemas, "removed": removed, "fields": fields, "chains": chains, "replace": replace, "messages": messages, "values": values, "far": refs}
