"""A small DOM with the text/attribute semantics the CommsDSL specification relies on."""
import xml.parsers.expat as E

WS = " \r\n\t"


class Node:
    __slots__ = ("name", "attrs", "kids", "line")

    def __init__(self, name, attrs, line):
        self.name, self.attrs, self.kids, self.line = name, attrs, [], line  # kids: Node | ('t', text) | ('c', comment) | ('d', cdata)

    def elems(self, names=None):
        return [k for k in self.kids if isinstance(k, Node) and (names is None or k.name in names)]

    def props(self):
        return {k: v.strip(WS) for k, v in self.attrs.items()}

    def text(self):
        if any(isinstance(k, Node) for k in self.kids):
            return ""
        for k in self.kids:
            if k[0] == 't':
                return k[1]
        return ""


class XmlError(Exception):
    pass


def parse_file(path):
    with open(path, "rb") as f:
        return parse_bytes(f.read())


def parse_bytes(data):
    p = E.ParserCreate()
    p.ordered_attributes = True
    p.buffer_text = False
    stack, root, cd = [], [], [False]

    def start(name, al):
        a = {}
        for i in range(0, len(al), 2):
            if al[i] != "xmlns" and not al[i].startswith("xmlns:"):
                a[al[i].split(":")[-1]] = al[i + 1]
        n = Node(name.split(":")[-1], a, p.CurrentLineNumber)
        (stack[-1].kids if stack else root).append(n)
        stack.append(n)

    def text(s):
        if not stack:
            return
        k = stack[-1].kids
        t = 'd' if cd[0] else 't'
        if k and not isinstance(k[-1], Node) and k[-1][0] == t and t == 't':
            k[-1] = (t, k[-1][1] + s)
        elif t == 'd' and k and not isinstance(k[-1], Node) and k[-1][0] == 'd':
            k[-1] = (t, k[-1][1] + s)
        else:
            k.append((t, s))

    p.StartElementHandler = start
    p.EndElementHandler = lambda n: stack.pop()
    p.CharacterDataHandler = text
    p.CommentHandler = lambda s: stack and stack[-1].kids.append(('c', s))

    def cdata(b):
        cd[0] = b
    p.StartCdataSectionHandler = lambda: cdata(True)
    p.EndCdataSectionHandler = lambda: cdata(False)
    try:
        p.Parse(data, True)
    except (E.ExpatError, LookupError, ValueError) as e:
        raise XmlError(str(e))
    return root[0]


def serialize(n):
    """As libxml2's xmlNodeDump without formatting."""
    if not isinstance(n, Node):
        if n[0] == 'c':
            return "<!--" + n[1] + "-->"
        if n[0] == 'd':
            return "<![CDATA[" + n[1] + "]]>"
        return n[1].replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")
    s = "<" + n.name
    for k, v in n.attrs.items():
        v = v.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;").replace("\n", "&#10;").replace("\t", "&#9;")
        s += ' %s="%s"' % (k, v.replace('"', "&quot;"))
    if not n.kids:
        return s + "/>"
    return s + ">" + "".join(serialize(k) for k in n.kids) + "</" + n.name + ">"
