"""Other spellings of a definition: every rule applied at every place it can be applied at, and everywhere at once."""
import copy, re
import xml.etree.ElementTree as E
from xml.sax.saxutils import escape


class Node:
    __slots__ = ("tag", "attrs", "kids", "open", "quote", "ref")

    def __init__(self, tag, attrs=(), kids=()):
        self.tag, self.attrs, self.kids = tag, list(attrs), list(kids)
        self.open, self.quote, self.ref = False, '"', None


def parse(text):
    def conv(e):
        n = Node(e.tag, e.attrib.items())
        if e.text and e.text.strip():
            n.kids.append(e.text)
        for c in e:
            n.kids.append(conv(c))
        return n
    return conv(E.fromstring(text))


def attr(v, q, ref):
    v = v.replace("&", "&amp;").replace("<", "&lt;").replace("\n", "&#10;").replace("\t", "&#9;").replace("\r", "&#13;")
    v = v.replace('"', "&quot;") if q == '"' else v.replace("'", "&apos;")
    return v


def show(n, out):
    if isinstance(n, str):
        out.append(n if n.startswith("<!") or n.startswith("<?") or n.isspace() else escape(n))
        return
    out.append("<" + n.tag)
    for k, v in n.attrs:
        if n.ref == k and v:
            t = "&#%d;" % ord(v[0]) + attr(v[1:], n.quote, None)
        else:
            t = attr(v, n.quote, None)
        out.append(" %s=%s%s%s" % (k, n.quote, t, n.quote))
    if not n.kids and not n.open:
        out.append("/>")
        return
    out.append(">")
    for k in n.kids:
        show(k, out)
    out.append("</%s>" % n.tag)


def text(n, head='<?xml version="1.0" encoding="UTF-8"?>\n'):
    out = [head]
    show(n, out)
    return "".join(out) + "\n"


def walk(n):
    yield n
    for k in n.kids:
        if not isinstance(k, str):
            yield from walk(k)


def nodes(n): return list(walk(n))


FIELD = {"int", "enum", "set", "float", "bitfield", "bundle", "string", "data", "list", "ref", "optional", "variant"}
LAYER = {"id", "size", "sync", "checksum", "value", "payload", "custom"}
GROUPS = [({"message", "interface"}, FIELD, "fields"), ({"bundle", "bitfield", "variant"}, FIELD, "members"), ({"frame"}, LAYER, "layers"),
          ({"schema", "ns"}, {"message"}, "messages"), ({"schema", "ns"}, {"frame"}, "frames"), ({"schema", "ns"}, {"interface"}, "interfaces")]
SINGLE = [("list", "element"), ("optional", "field")]
# the attribute which is the element itself: its value cannot be moved out
OWN = {("validRange", "value"), ("validMin", "value"), ("validMax", "value"), ("cond", "value"), ("validValue", "value"), ("and", "value"), ("or", "value")}


# ------------------------------------------------------------------------------------------------ rules: sites(node) -> site, apply(node, site)
RULES = {}
def rule(f):
    RULES[f.__name__] = f
    return f


def props(n, parent):
    for i, (k, v) in enumerate(n.attrs):
        if (n.tag, k) not in OWN and k != "value" and ":" not in k and v.strip():
            yield k


def asnum(v): return re.fullmatch(r"0|[1-9][0-9]*", v)


NUM = {"id", "idx", "val", "defaultValue", "length", "bitLength", "sinceVersion", "deprecated", "serOffset", "version", "dslVersion", "count", "displayDecimals", "displayOffset", "validValue", "nonUniqueIds", "reservedValue", "order", "validMin", "validMax"}
BOOLS = {"true": ("1", "TRUE", "True"), "false": ("0", "FALSE", "False")}


def wrapped(n):
    """members have to be in the grouping element when there are properties in children"""
    for owners, kinds, g in GROUPS[:3]:
        if n.tag in owners and any(not isinstance(k, str) and k.tag in kinds for k in n.kids) and not any(not isinstance(k, str) and k.tag == g for k in n.kids):
            n.kids = [Node(g, [], [k for k in n.kids if isinstance(k, str) or k.tag in kinds])] + [k for k in n.kids if not isinstance(k, str) and k.tag not in kinds]
    one = dict(SINGLE, **{x: "field" for x in LAYER}).get(n.tag)
    if one:
        for i, k in enumerate(n.kids):
            if not isinstance(k, str) and k.tag in FIELD:
                n.kids[i] = Node(one, [], [k])


def children(n):
    """attribute moved into a child: in front of the other children or behind them, as attribute value or as text of the child"""
    for k in props(n, None):
        v = dict(n.attrs)[k]
        for pos in ("first", "last"):
            for form in ("value", "text"):
                if form == "text" and (v != " ".join(v.split()) or not v):
                    continue
                def f(n, k=k, v=v, pos=pos, form=form):
                    n.attrs = [(a, b) for a, b in n.attrs if a != k]
                    wrapped(n)
                    c = Node(k, [("value", v)]) if form == "value" else Node(k, [], [v])
                    n.kids.insert(0 if pos == "first" else len(n.kids), c)
                yield "%s %s %s" % (k, pos, form), f


def parents(n):
    """property in a child moved into an attribute"""
    for i, c in enumerate(n.kids):
        if isinstance(c, str) or c.tag in FIELD | LAYER or [k for k in c.kids if not isinstance(k, str)]:
            continue
        if n.tag in ("fields", "members", "layers", "messages", "frames", "interfaces", "schema", "ns", "and", "or") or sum(1 for x in n.kids if not isinstance(x, str) and x.tag == c.tag) != 1:
            continue
        if [k for k, _ in c.attrs] == ["value"] and not c.kids:
            v = c.attrs[0][1]
        elif not c.attrs and len(c.kids) == 1 and isinstance(c.kids[0], str):
            v = c.kids[0].strip()
        else:
            continue
        if c.tag in dict(n.attrs):
            continue
        def f(n, i=i, t=c.tag, v=v):
            del n.kids[i]
            n.attrs.append((t, v))
        yield c.tag, f


def numbers(n):
    for k, v in n.attrs:
        if k in NUM and asnum(v):
            for w in ("0x%x" % int(v), "0x%X" % int(v), "0x%04x" % int(v), " %s " % v):
                def f(n, k=k, w=w):
                    n.attrs = [(a, w if a == k else b) for a, b in n.attrs]
                yield "%s=%s" % (k, w), f
        for w in BOOLS.get(v, ()):
            if k in ("defaultValue",) and n.tag != "set" and n.tag != "bit":
                continue
            def f(n, k=k, w=w):
                n.attrs = [(a, w if a == k else b) for a, b in n.attrs]
            yield "%s=%s" % (k, w), f


def order(n):
    if len(n.attrs) > 1:
        def f(n): n.attrs.reverse()
        yield "reverse", f
        def f(n): n.attrs = n.attrs[1:] + n.attrs[:1]
        yield "rotate", f


def noise(n):
    if any(isinstance(k, str) and not k.startswith("<!") and not k.startswith("<?") and k.strip() for k in n.kids):
        def f(n): n.kids.insert(0, "\n   "); n.kids.append("\t\n")
        yield "around text", f
        def f(n): n.kids.insert(0, "<!-- c -->"); n.kids.append("<!-- d -->")
        yield "comment around text", f
        def f(n):
            i = next(i for i, k in enumerate(n.kids) if isinstance(k, str) and k.strip())
            t = n.kids[i]
            n.kids[i] = "<![CDATA[%s]]>" % t
        yield "cdata", f
        def f(n):
            i = next(i for i, k in enumerate(n.kids) if isinstance(k, str) and k.strip())
            t = n.kids[i]
            n.kids[i:i + 1] = [t[:len(t) // 2], "<!-- in -->", t[len(t) // 2:]]
        yield "comment inside text", f
        return
    for i in range(len(n.kids) + 1):
        for what, t in (("comment", "<!-- a < b <x/> -->"), ("space", "\n \t\n"), ("pi", "<?pi data?>")):
            def f(n, i=i, t=t): n.kids.insert(i, t)
            yield "%s at %d" % (what, i), f


def tags(n):
    if not n.kids:
        def f(n): n.open = True
        yield "open and close", f
    if n.attrs:
        def f(n): n.quote = "'"
        yield "quotes", f
    for k, v in n.attrs:
        if v and k not in ("xmlns",):
            def f(n, k=k): n.ref = k
            yield "reference %s" % k, f


def groups(n):
    for owners, kinds, g in GROUPS:
        if n.tag not in owners:
            continue
        for i, k in enumerate(n.kids):
            if not isinstance(k, str) and k.tag == g and not k.attrs and [x for x in k.kids if not isinstance(x, str)] and all(isinstance(x, str) or x.tag in kinds for x in k.kids):
                if n.tag in ("message", "interface", "bundle", "bitfield", "variant", "frame") and any(not isinstance(x, str) and x is not k for x in n.kids):
                    continue   # members may be in the element only when nothing but properties is
                def f(n, i=i): n.kids[i:i + 1] = n.kids[i].kids
                yield "unwrap " + g, f
        idx = [i for i, k in enumerate(n.kids) if not isinstance(k, str) and k.tag in kinds]
        if not idx or any(not isinstance(k, str) and k.tag == g for k in n.kids):
            continue
        if n.tag in ("schema", "ns"):
            for i in idx:
                def f(n, i=i, g=g): n.kids[i] = Node(g, [], [n.kids[i]])
                yield "wrap one %s %d" % (g, i), f
        def f(n, idx=idx, g=g):
            w = Node(g, [], [n.kids[i] for i in idx])
            n.kids[idx[0]] = w
            for i in reversed(idx[1:]):
                del n.kids[i]
        if n.tag not in ("schema", "ns") or idx == list(range(idx[0], idx[0] + len(idx))):
            yield "wrap all " + g, f
    for t, w in SINGLE:
        if n.tag != t:
            continue
        for i, k in enumerate(n.kids):
            if isinstance(k, str):
                continue
            if k.tag in FIELD:
                def f(n, i=i, w=w): n.kids[i] = Node(w, [], [n.kids[i]])
                yield "wrap " + w, f
            if k.tag == w and not k.attrs and len([x for x in n.kids if not isinstance(x, str)]) == 1:
                def f(n, i=i): n.kids[i:i + 1] = n.kids[i].kids
                yield "unwrap " + w, f


def kidorder(n):
    """properties in children swapped with what is next to them"""
    def isprop(k): return not isinstance(k, str) and not any(not isinstance(x, str) for x in k.kids) and k.tag not in FIELD | LAYER and ([a for a, _ in k.attrs] == ["value"] or not k.attrs and k.kids) and k.tag not in ("validRange", "validValue", "validMin", "validMax", "cond")
    if n.tag in ("schema", "ns", "fields", "members", "messages", "frames", "interfaces", "layers", "and", "or"):
        return
    for i in range(len(n.kids) - 1):
        a, b = n.kids[i], n.kids[i + 1]
        if isinstance(a, str) or isinstance(b, str) or a.tag == b.tag:
            continue
        if isprop(a) or isprop(b):
            def f(n, i=i): n.kids[i], n.kids[i + 1] = n.kids[i + 1], n.kids[i]
            yield "swap %s %s" % (a.tag, b.tag), f


def names_in(n):
    return {v for x in walk(n) for k, v in x.attrs if k == "name"} | {w for x in walk(n) if x.tag == "name" for w in [v for _, v in x.attrs] + [t.strip() for t in x.kids if isinstance(t, str)]}


def uses(n):
    """names this may refer to: every part of every value"""
    out = set()
    for x in walk(n):
        if x.tag == "name":
            continue
        for k, v in x.attrs:
            if k != "name":
                out |= set(re.findall(r"\w+", v))
        for s in x.kids:
            if isinstance(s, str):
                out |= set(re.findall(r"\w+", s))
    return out


def defs(n):
    """definitions next to each other in another order, each namespace, also in two parts"""
    if n.tag not in ("schema", "ns") and not (n.tag == "fields" and False):
        return
    for i in range(len(n.kids) - 1):
        a, b = n.kids[i], n.kids[i + 1]
        if isinstance(a, str) or isinstance(b, str) or "platforms" in (a.tag, b.tag):
            continue
        if (names_in(a) & uses(b)) or (names_in(b) & uses(a)) or a.tag in ("description", "fields") or b.tag in ("description",):
            continue
        def f(n, i=i): n.kids[i], n.kids[i + 1] = n.kids[i + 1], n.kids[i]
        yield "swap %s %s %d" % (a.tag, b.tag, i), f
    for j, k in enumerate(n.kids):
        if isinstance(k, str) or k.tag not in ("ns", "fields"):
            continue
        for c in range(1, len(k.kids)) if k.tag == "fields" or "name" in dict(k.attrs) else ():
            def f(n, j=j, c=c):
                k = n.kids[j]
                a, b = Node(k.tag, k.attrs, k.kids[:c]), Node(k.tag, [x for x in k.attrs if x[0] == "name"], k.kids[c:])
                n.kids[j:j + 1] = [a, b]
            yield "split %s %d at %d" % (k.tag, j, c), f


for f in (children, parents, numbers, order, noise, tags, groups, kidorder, defs):
    rule(f)


def singles(root, only=None, inside=None):
    """(label, root) with one rule applied at one place, of the elements with the tag and what they contain only"""
    ns = nodes(root)
    keep = {id(x) for n in ns if n.tag == inside for x in walk(n)} if inside else {id(n) for n in ns}
    for name, r in RULES.items():
        if only and name not in only:
            continue
        for i, n in enumerate(ns):
            if id(n) not in keep:
                continue
            for label, f in r(n):
                c = copy.deepcopy(root)
                f(nodes(c)[i])
                yield "%s|%s#%d|%s" % (name, n.tag, i, label), c


def alls(root):
    """(label, root) with one rule applied everywhere"""
    for name, r in RULES.items():
        for pick in range(8):
            c = copy.deepcopy(root)
            did = False
            for n in nodes(c):
                xs = list(r(n))
                if not xs:
                    continue
                # applying one may move the places of the others: one per node, or every attribute for the independent ones
                if name in ("children", "numbers"):
                    groups_ = {}
                    for label, f in xs:
                        groups_.setdefault(re.split(r"[ =]", label)[0], []).append(f)
                    for fs in groups_.values():
                        fs[pick % len(fs)](n)
                        did = True
                else:
                    if pick < len(xs):
                        xs[pick][1](n)
                        did = True
            if did:
                yield "%s|everywhere|%d" % (name, pick), c


def files(root):
    """(label, [roots]): the definitions spread over several files"""
    if "name" not in dict(root.attrs):
        return
    cuts = range(1, len(root.kids))
    name = [x for x in root.attrs if x[0] == "name"]
    def part(a, b, first): return Node("schema", root.attrs if first else name, root.kids[a:b])
    for c in cuts:
        yield "files|at %d" % c, [part(0, c, True), part(c, None, False)]
        yield "files|all attributes|at %d" % c, [part(0, c, True), part(c, None, True)]
    yield "files|each", [part(i, i + 1, i == 0) for i in range(len(root.kids))]
    yield "files|empty ones between", [x for i in range(len(root.kids)) for x in (part(i, i + 1, i == 0), part(0, 0, False))]
