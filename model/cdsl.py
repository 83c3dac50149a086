"""Reference interpreter of CommsDSL schemas, written from the CommsDSL specification: turns schema files into a model of the protocol or rejects them.
All numbers are mathematical integers; nothing here is derived from the repository's code at run time."""
import math
import re
from . import xmlt
from .xmlt import Node, WS

NOTYET = 0xffffffff
MAXLEN = (1 << 64) - 1
I64MAX, I64MIN, U64MAX = (1 << 63) - 1, -(1 << 63), (1 << 64) - 1


class Reject(Exception):
    pass


def sadd(a, b): return min(a + b, MAXLEN)
def smul(a, b): return min(a * b, MAXLEN)


# ---------------------------------------------------------------- scalars
NUM = re.compile(r"[ \t\n\v\f\r]*([+-]?)(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)[ \t\n\r]*\Z")


def numstr(s):
    m = NUM.match(s)
    if not m:
        raise Reject("not a number: %r" % s)
    t = m.group(2)
    v = int(t, 16) if t[:2] in ("0x", "0X") else int(t, 8) if t[0] == "0" else int(t)
    return -v if m.group(1) == "-" else v


def to_int(s):
    v = numstr(s)
    if not I64MIN <= v <= I64MAX:
        raise Reject("out of range " + s)
    return v


def to_uint(s):
    v = numstr(s)
    if not 0 <= v <= U64MAX:
        raise Reject("out of range " + s)
    return v


def to_unsigned(s):
    v = numstr(s)
    if not 0 <= v <= 0xffffffff:
        raise Reject("out of range " + s)
    return v


FLT = re.compile(r"[ \t\n\v\f\r]*[+-]?(?:0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][+-]?\d+)?|(?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?|(?:inf(?:inity)?|nan)(?:\(\w*\))?)[ \t\n\r]*\Z", re.I)


def to_double(s, specials=True):
    t = s
    if specials and t in ("nan", "inf", "-inf"):
        return float(t)
    if not FLT.match(t):
        raise Reject("not fp: %r" % s)
    try:
        v = float.fromhex(t) if "x" in t.lower() else float(t)
    except (ValueError, OverflowError):
        raise Reject("not fp: %r" % s)
    if math.isinf(v) and "inf" not in t.lower():
        raise Reject("fp range " + s)
    if v != 0 and abs(v) < 2.2250738585072014e-308:
        raise Reject("fp underflow " + s)
    return v


def to_bool(s):
    l = s.lower()
    if l in ("true", "1"):
        return True
    if l in ("false", "0"):
        return False
    raise Reject("bad bool %r" % s)


def to_endian(s, default):
    if not s:
        return default
    if s.lower() not in ("little", "big"):
        raise Reject("bad endian " + s)
    return ("little", "big").index(s.lower())


def to_range(s):
    # "[a,b]": spaces next to the separator and inside the brackets are not significant
    if len(s) <= 3 or s[0] != "[" or s[-1] != "]" or s.count(",") != 1 or s.index("]") != len(s) - 1:
        raise Reject("bad range " + s)
    a, b = s[1:-1].split(",")
    return a.rstrip(" \t"), b.lstrip(" \t")


def valid_name(s): return re.match(r"[A-Za-z_][A-Za-z0-9_]*\Z", s) is not None


def valid_ref(s):
    if s[:1] == "@":
        s = s[1:]
    return re.match(r"[A-Za-z_][A-Za-z0-9_.]*\Z", s) is not None and not s.endswith(".") and ".." not in s


_U = """ns nanosec nanosecs nanosecond nanoseconds|us microsec microsecs microsecond microseconds|ms millisec millisecs millisecond milliseconds|s sec secs second seconds|min mins minute minutes|h hour hours|d day days|w week weeks|
nm nanometer nanometre nanometres nanometers|um micrometer micrometre micrometres micrometers|mm millimeter millimetre millimetres millimeters|cm centimeter centimetre centimetres centimeters|m meter metre metres meters|km kilometer kilometre kilometres kilometers|
nm/s nmps nanometer/second nanometre/second nanometers/second nanometres/second|um/s umps micrometers/second micrometres/second micrometer/second micrometre/second|mm/s mmps millimeter/second millimetre/second millimeters/second millimetres/second|
cm/s cmps centimeter/second centimetre/second centimeters/second centimetres/second|m/s mps meter/second metre/second meters/second metres/second|km/s kmps kps kilometer/second kilometre/second kilometers/second kilometres/second|
km/h kmph kph kilometer/hour kilometre/hour kilometers/hour kilometres/hour|hz hertz|khz kilohertz|mhz megahertz|ghz gigahertz|deg degree degrees|rad radian radians|
na nanoamp nanoamps nanoampere nanoamperes|ua microamp microamps microampere microamperes|ma milliamp milliamps milliampere milliamperes|a amp amps ampere amperes|ka kiloamp kiloamps kiloampere kiloamperes|
nv nanovolt nanovolts|uv microvolt microvolts|mv millivolt millivolts|v volt volts|kv kilovolt kilovolts|b byte bytes|kb kilobyte kilobytes|mb megabyte megabytes|gb gigabyte gigabytes|tb terabyte terabytes"""
UNITS = {"": 0}
for _i, _l in enumerate(_U.replace("\n", "").split("|")):
    for _w in _l.split():
        UNITS[_w] = _i + 1


def to_units(s):
    k = s.lower().replace(" ", "").replace("\t", "")
    if k not in UNITS:
        raise Reject("bad units " + s)
    return UNITS[k]


# ---------------------------------------------------------------- property collection
def node_value(node, must=True):
    a = node.props().get("value", "")
    t = node.text().strip(WS)
    if a and t:
        if must:
            raise Reject("value twice")
        return ""
    if not a and not t:
        if must:
            raise Reject("no value in " + node.name)
        return ""
    return a or re.sub(" +", " ", re.sub(r"[\t\r\n]", " ", t))


class Props:
    """name -> list of values (attribute first)."""

    def __init__(self, node, *groups):
        self.m = {k: [v] for k, v in node.props().items()}
        for names, must in groups:
            for c in node.elems():
                if c.name in names:
                    v = node_value(c, must)
                    if v:
                        self.m.setdefault(c.name, []).append(v)

    def one(self, name, must=False):
        v = self.m.get(name, [])
        if len(v) > 1:
            raise Reject("too many " + name)
        if not v:
            if must:
                raise Reject("missing " + name)
            return None
        return v[0]

    def first(self, name): return self.m[name][0] if name in self.m else None
    def __contains__(self, n): return n in self.m


class Obj:
    okind = None

    def __init__(self, node, proto, parent=None):
        self.node, self.proto, self.parent = node, proto, parent
        self.since, self.depr, self.removed = 0, NOTYET, False
        self.xattr, self.xelem = [], []

    def warn(self, msg=""): self.proto.warn(msg)

    def sup(self, v): return self.proto.sup(v)

    def versions(self, props, since, depr):
        return get_versions(self.proto, props.first("sinceVersion"), props.first("deprecated"), since, depr)

    def extras(self, props, children, keep=True):
        a = [(k, v) for k, v in sorted(self.node.props().items()) if k not in props]
        c = [n for n in self.node.elems() if n.name not in children]
        for k in [k for k, _ in a] + [n.name for n in c]:
            if not any(k.startswith(p) for p in self.proto.prefixes):
                self.warn("unknown " + k)
        a = self.xattr + a if keep else a
        self.xattr = sorted(a, key=lambda x: x[0])
        self.xelem = (self.xelem if keep else []) + [xmlt.serialize(n) for n in c]

    def parent_ns(self): return self.parent if self.parent is not None and self.parent.okind == "ns" else None

    def ext(self, schema=True):
        ns = self.parent_ns()
        if ns is None:
            return ""
        r = ns.ext(schema)
        return r + "." + self.name if r else self.name


def check_versions(proto, since, depr, psince, pdepr):
    v = proto.cur.version
    if v < since or since < psince or pdepr <= since or pdepr < depr or depr <= since or (depr < NOTYET and v < depr):
        raise Reject("versions")


def get_versions(proto, s, d, since, depr):
    ns = to_unsigned(s) if s is not None else since
    nd = to_unsigned(d) if d is not None else depr
    check_versions(proto, ns, nd, since, depr)
    return ns, nd


def node_versions(proto, node, since, depr):
    p = Props(node, (("sinceVersion", "deprecated"), True))
    return get_versions(proto, p.first("sinceVersion"), p.first("deprecated"), since, depr)


FIELD_KINDS = ["int", "enum", "set", "float", "bitfield", "bundle", "string", "data", "list", "ref", "optional", "variant"]
SEM = ["none", "version", "messageid", "length"]
OVR = {"": 0, "any": 0, "replace": 1, "extend": 2, "none": 3}
OVPROPS = ["value", "read", "write", "refresh", "length", "valid", "name"]
COMMON = ["name", "displayName", "description", "sinceVersion", "deprecated", "removed", "reuse", "semanticType", "pseudo", "fixedValue", "displayReadOnly", "displayHidden", "customizable",
          "failOnInvalid", "forceGen"] + [o + "Override" for o in OVPROPS] + ["copyCodeFrom", "reuseCode", "validateMinLength"]
VALUE_PROPS = ("name", "val", "sinceVersion", "deprecated", "description", "displayName")
PROPMIN = {"validateMinLength": 4, "defaultValidValue": 4, "availableLengthLimit": 4, "copyCodeFrom": 5, "semanticLayerType": 5, "checksumFrom": 5, "checksumUntil": 5, "termSuffix": 5, "missingOnReadFail": 5,
           "missingOnInvalid": 5, "reuseCode": 5, "construct": 6, "readCond": 6, "validCond": 6, "constructAsReadCond": 6, "constructAsValidCond": 6, "fixedValue": 7, "copyConstructFrom": 7, "copyReadCondFrom": 7,
           "copyValidCondFrom": 7, "seekField": 8, "escField": 8}
PROPDEPR = {"displayReadOnly": 7, "displayHidden": 7, "displaySpecials": 7, "displayExtModeCtrl": 7, "displayIdxReadOnlyHidden": 7}


class RefInfo:
    def __init__(self, field, kind="field", value=""):
        self.field, self.kind, self.value = field, kind, value


class Field(Obj):
    okind = "field"
    kind = None
    XP = ()          # additional properties (value required when given as child)
    XPOSS = ()       # additional properties that may also be structured children
    XC = ()          # additional children
    MEMBER_TYPES = ()
    CFG = {"name": "", "dname": "", "desc": "", "sem": 0, "pseudo": False, "fixed": False, "custom": False, "fail": False, "force": False, "copycode": "", "vminlen": -1}
    K = {}           # kind specific attributes and their initial values

    def __init__(self, node, proto, parent=None):
        super().__init__(node, proto, parent)
        for k, v in self.CFG.items():
            setattr(self, k, v)
        self.ov = {o: 0 for o in OVPROPS}
        for k, v in self.K.items():
            setattr(self, k, v() if callable(v) else v)
        self.members = []

    # copying
    def copy_common(self, o):
        for k in self.CFG:
            setattr(self, k, getattr(o, k))
        self.since, self.depr, self.removed = o.since, o.depr, o.removed
        self.ov = dict(o.ov)
        self.xattr, self.xelem = list(o.xattr), list(o.xelem)

    def copy_kind(self, o):
        for k in self.K:
            v = getattr(o, k)
            setattr(self, k, (dict(v) if isinstance(v, dict) else v) if k.startswith("ext") else cp(v, self))
        self.members = [m.clone(self) for m in o.members]

    def clone(self, parent):
        n = type(self)(self.node, self.proto, parent)
        n.copy_common(self)
        n.copy_kind(self)
        n.props = getattr(self, "props", None)
        return n

    # parsing
    def parse(self):
        self.props = p = Props(self.node, (COMMON, True), (self.XP, True), (self.XPOSS, False))
        self.reuse()
        self.replace()
        self.strprop("name")
        self.strprop("displayName", "dname", deref=True)
        self.strprop("description", "desc", deref=True)
        self.upd_versions()
        s = p.one("semanticType")
        if s is not None:
            if s.lower() not in SEM and s != "":
                raise Reject("semanticType")
            self.sem = SEM.index(s.lower()) if s else 0
        self.boolprop("pseudo")
        self.boolprop("fixedValue", "fixed")
        self.deprecated_prop("displayReadOnly")
        self.deprecated_prop("displayHidden")
        self.boolprop("customizable", "custom")
        self.boolprop("failOnInvalid", "fail")
        self.boolprop("forceGen", "force")
        for o in OVPROPS:
            self.ovprop(o)
        c = p.one("copyCodeFrom")
        if c is not None:
            if not self.sup(PROPMIN["copyCodeFrom"]):
                self.warn("copyCodeFrom")
            else:
                if self.proto.find("fields", c) is None:
                    raise Reject("copyCodeFrom " + c)
                self.copycode = c
        v = p.one("validateMinLength")
        if v is not None:
            if not self.sup(7):
                self.warn("validateMinLength")
            else:
                self.vminlen = to_unsigned(v)
        self.parse_kind()
        if self.sem and not self.sem_allowed(self.sem):
            raise Reject("semanticType not allowed")
        if not valid_name(self.name):
            raise Reject("bad name %r" % self.name)
        if self.vminlen >= 0 and self.vminlen != self.minlen():
            raise Reject("validateMinLength")
        ep = list(COMMON) + list(self.XP) + list(self.XPOSS)
        self.extras(ep, ep + ["meta", "replace"] + list(self.XC))
        return self

    def reuse(self):
        r = self.props.one("reuse")
        if r is None:
            return
        f = self.proto.find("fields", r)
        if f is None or f.kind != self.kind:
            raise Reject("reuse " + r)
        self.copy_common(f)
        self.copycode = ""
        c = self.props.one("reuseCode")
        if c is not None and self.sup(PROPMIN["reuseCode"]):
            if to_bool(c):
                self.copycode = r
        elif c is not None:
            self.warn("reuseCode")
        self.reuse_kind(f)

    def reuse_kind(self, f): self.copy_kind(f)

    def replace(self):
        rn = self.node.elems(("replace",))
        if len(rn) > 1:
            raise Reject("replace twice")
        if not rn:
            return
        if not self.sup(5):
            return self.warn("replace")
        kids = rn[0].elems()
        if any(k.name not in self.MEMBER_TYPES for k in kids):
            if self.MEMBER_TYPES or kids:
                raise Reject("replace member type")
        if not kids:
            return
        ms = [make_field(k, self.proto, self).parse() for k in kids]
        self.replace_members(ms)

    def replace_members(self, ms): raise Reject("replace not supported")

    def strprop(self, name, attr=None, must=False, deref=False):
        v = self.props.one(name, must)
        if v is not None:
            setattr(self, attr or name, self.proto.deref_str(v) if deref else v)

    def boolprop(self, name, attr=None):
        v = self.props.one(name)
        if v is None:
            return
        if not self.sup(PROPMIN.get(name, 0)):
            return self.warn(name)
        setattr(self, attr or name, to_bool(v))

    def deprecated_prop(self, name):
        if name in self.props and self.proto.deprecated(PROPDEPR[name]):
            self.warn(name)

    def ovprop(self, o):
        v = self.props.one(o + "Override")
        if v is None:
            self.ov[o] = 0
        elif not self.sup(4):
            self.warn("override")
        elif v.lower() not in OVR:
            raise Reject("override " + v)
        else:
            self.ov[o] = OVR[v.lower()]

    def upd_versions(self):
        p = self.props
        for n in ("sinceVersion", "deprecated", "removed"):
            p.one(n)
        since, depr = (self.parent.since, self.parent.depr) if self.parent is not None and self.parent.okind != "ns" else (0, NOTYET)
        since, depr = self.versions(p, since, depr)
        if not (self.parent is not None and self.parent.okind in ("field", "message")):
            if since or depr != NOTYET:
                self.warn("version of global")
            since, depr = 0, NOTYET
        r = p.first("removed")
        rem = to_bool(r) if r is not None else False
        if rem and depr == NOTYET:
            self.warn("removed")
        self.since, self.depr, self.removed = since, depr, rem

    def parse_kind(self): pass
    def sem_allowed(self, s): return False
    def minlen(self): raise NotImplementedError
    def maxlen(self): return self.minlen()
    def bitlen(self): return 0
    def in_bitfield(self): return self.parent is not None and self.parent.okind == "field" and self.parent.kind == "bitfield"
    def kind_val(self): return self.kind

    def detached_ok(self):
        if not (self.parent is not None and (self.parent.okind == "message" or (self.parent.okind == "field" and self.parent.kind == "bundle"))):
            raise Reject("detached prefix not allowed")

    # references
    def nonref(self): return self

    def find_sibling(self, name):
        """the field a $reference of this member denotes"""
        return find_in(self.parent.sibs(), name)

    def sibs(self): return self.members

    def inner_ref(self, s):
        if not s:
            return RefInfo(self)
        if self.kind == "variant":
            return None
        if self.members:
            return sibling_ref(self.members, s)
        return self.inner_ref_kind(s)

    def inner_ref_kind(self, s): return None

    def valid_ref_type(self, k):
        if k == "field":
            return True
        if k == "exists" and (self.since > 0 or self.depr < NOTYET):
            return True
        return self.valid_ref_kind(k)

    def valid_ref_kind(self, k): return False

    def cmp_value(self, s):
        """may be compared with the constant s"""
        if SEM[self.sem] in ("version", "length"):
            return ok(to_int, s)
        return self.cmp_value_kind(s)

    def cmp_value_kind(self, s): return False

    def cmp_field(self, o):
        o = o.nonref_cmp()
        if self.kind == o.kind:
            return True
        return self.cmp_field_kind(o)

    def cmp_field_kind(self, o): return False
    def nonref_cmp(self): return self

    def aliased(self, rest): return not rest or self.aliased_kind(rest)
    def aliased_kind(self, rest): return False
    def verify_siblings(self, fields): pass

    # values: kind of conversion in num, fp, bool, str, data
    def value(self, how, ref):
        if self.members:
            return self.value_members(how, ref)
        v = getattr(self, "val_" + how, None)
        if v is None and how == "fp":
            v = self.value_num_as_fp
        return v(ref) if v else self.no_value()

    def value_members(self, how, ref):
        if not ref or not self.sup(2):
            return self.no_value()
        a, _, b = ref.partition(".")
        for m in self.members:
            if m.name == a:
                return m.value(how, b)
        raise Reject("no member " + a)

    def value_num_as_fp(self, ref):
        return float(self.value("num", ref))

    def no_value(self): raise Reject("not a value")

    # dump
    def dump(self):
        d = {"kind": self.kind, "name": self.name, "dname": self.dname, "desc": self.desc, "sem": self.sem, "minlen": self.minlen(), "maxlen": self.maxlen(), "bitlen": self.bitlen(),
             "since": self.since, "depr": self.depr, "removed": self.removed, "ext": self.ext(), "ext0": self.ext(False), "pseudo": self.pseudo, "fixed": self.fixed, "custom": self.custom,
             "fail": self.fail, "force": self.force, "copycode": self.copycode, "xattr": [list(a) for a in self.xattr], "xelem": self.xelem}
        for o in OVPROPS:
            d["ov_" + o] = self.ov[o]
        d.update(self.dump_kind())
        return d


def cp(v, owner):
    if isinstance(v, Field):
        return v.clone(owner.parent if owner.kind in ("string", "data", "list", "optional") and False else None)
    if isinstance(v, Alias):
        return v.clone()
    if isinstance(v, list):
        return [cp(x, owner) for x in v]
    if isinstance(v, dict):
        return {k: cp(x, owner) for k, x in v.items()}
    return v


def ok(f, *a):
    try:
        f(*a)
        return True
    except Reject:
        return False


def find_in(fields, name):
    a, dot, b = name.partition(".")
    for f in fields:
        if f.name == a:
            return find_in(f.members, b) if dot else f
    raise Reject("no sibling " + name)


def sibling_ref(sibs, s):
    if s[:1] in ("#", "?"):
        i = sibling_ref(sibs, s[1:])
        if i is None or i.kind != "field":
            return None
        k = "size" if s[0] == "#" else "exists"
        return RefInfo(i.field, k) if i.field.valid_ref_type(k) else None
    a, _, b = s.partition(".")
    for f in sibs:
        if a and f.name == a:
            return f.inner_ref(b)
    return None


class Alias(Obj):
    okind = "alias"
    P = ("name", "description", "field")

    def __init__(self, node, proto):
        super().__init__(node, proto)
        self.name = self.desc = self.field = ""

    def clone(self):
        a = Alias(self.node, self.proto)
        a.name, a.desc, a.field, a.xattr, a.xelem = self.name, self.desc, self.field, list(self.xattr), list(self.xelem)
        return a

    def parse(self):
        p = Props(self.node, (self.P, True))
        self.name = p.one("name", True)
        if not valid_name(self.name):
            raise Reject("alias name")
        d = p.one("description")
        if d is not None:
            self.desc = self.proto.deref_str(d)
        f = p.one("field", True)
        if f[:1] != "$" or not valid_ref(f[1:]):
            raise Reject("alias field")
        self.field = f[1:]
        self.extras(self.P, self.P)
        return self

    def verify(self, aliases, fields):
        def same(n): return len(n) == len(self.name) and n[:1].lower() == self.name[:1].lower() and n[1:] == self.name[1:]
        if any(same(f.name) for f in fields) or any(same(a.name) for a in aliases):
            raise Reject("alias name taken")
        a, dot, b = self.field.partition(".")
        for f in fields:
            if f.name == a:
                if not dot or f.aliased(b):
                    return
                break
        raise Reject("aliased field")

    def dump(self): return {"name": self.name, "desc": self.desc, "field": self.field, "xattr": [list(a) for a in self.xattr], "xelem": self.xelem}


# ---------------------------------------------------------------- int / enum / set / float
ITYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "intvar", "uintvar"]
TLEN = [1, 1, 2, 2, 4, 4, 8, 8, 10, 10]


def tsigned(t): return t % 2 == 0
def tvar(t): return t >= 8
def tbig(t): return t in (7, 9)
def trange(t):
    b = min(TLEN[t] * 8, 64)
    return (-(1 << b - 1), (1 << b - 1) - 1) if tsigned(t) else (0, (1 << b) - 1)


def itype(s):
    if s.lower() not in ITYPES:
        raise Reject("type " + s)
    return ITYPES.index(s.lower())


def s64(v): return (v + (1 << 63)) % (1 << 64) - (1 << 63)


class Numeric(Field):
    """What integers and enums share."""

    def upd_type(self):
        must = self.type is None
        t = self.props.one("type", must)
        if t is None:
            return
        t = itype(t)
        if not must and t != self.type:
            raise Reject("type changed")
        self.type = t

    def upd_endian(self):
        e = self.props.one("endian") or ""
        if e or self.endian is None:
            self.endian = to_endian(e, self.proto.cur.endian)

    def upd_length(self):
        l = self.props.one("length") or ""
        if not l:
            self.length = self.length or TLEN[self.type]
            return
        n = to_uint(l)
        if n == 0 or (self.length and self.length != n) or n > TLEN[self.type]:
            raise Reject("length")
        self.length = n

    def upd_bitlen(self):
        b = self.props.one("bitLength") or ""
        if not b:
            self.bits = self.bits or self.length * 8
        elif not self.in_bitfield():
            self.warn("bitLength")
            self.bits = self.length * 8
        else:
            self.bits = to_unsigned(b)
            self.check_bits(self.bits)

    def check_bits(self, b):
        if not b or tvar(self.type) or b > self.length * 8:
            raise Reject("bitLength")

    def bitlen(self): return self.bits if self.in_bitfield() else 0
    def minlen(self): return 1 if tvar(self.type) else self.length
    def maxlen(self): return self.length
    def cmp_value_kind(self, s): return ok(self.strval, s)
    def cmp_field_kind(self, o): return o.kind in ("int", "enum")
    def valid_ref_kind(self, k): return k == "inner"

    def base_range(self):
        t, b = self.type, self.bits
        n = min((b // 8) * 7, 64) if tvar(t) else min(b, 64)
        if tsigned(t):
            return (-(1 << n - 1), (1 << n - 1) - 1) if n else (0, 0)
        return 0, (1 << n) - 1

    def lookup(self, name): return None

    def strval(self, s):
        if valid_name(s):
            v = self.lookup(s)
            if v is not None:
                return v
        if valid_ref(s):
            v = self.proto.value("num", s)
            if v < 0 and not tsigned(self.type):
                raise Reject("negative")
            if v > I64MAX and not tbig(self.type):
                raise Reject("too big")
            return v
        return to_uint(s) if tbig(self.type) else to_int(s)

    def inner_ref_kind(self, s): return RefInfo(self, "inner", s) if self.lookup(s) is not None else None

    def in_type(self, v):
        lo, hi = trange(self.type)
        if not lo <= v <= hi:
            raise Reject("value out of type range")
        if not self.vmin <= v <= self.vmax:
            self.warn("value out of range")

    def named_value(self, n):
        """name/val element"""
        p = Props(n, (VALUE_PROPS, True))
        name, val = p.one("name", True), p.one("val", True)
        for k in VALUE_PROPS[2:]:
            p.one(k)
        return p, name, val


class IntField(Numeric):
    kind = "int"
    XP = ("type", "defaultValue", "units", "scaling", "endian", "length", "bitLength", "serOffset", "validRange", "validValue", "validMin", "validMax", "validCheckVersion", "nonUniqueSpecialsAllowed",
          "displayDecimals", "displayOffset", "signExt", "displaySpecials", "defaultValidValue", "availableLengthLimit")
    XC = ("special",)
    K = {"type": None, "endian": None, "length": 0, "bits": 0, "offset": 0, "vmin": 0, "vmax": 0, "nonuniq": None, "specials": dict, "default": 0, "vcv": False, "ranges": list, "units": 0, "decimals": 0,
         "doffset": 0, "signext": True, "avail": False, "scaling": (0, 0)}

    def __init__(self, node, proto, parent=None):
        super().__init__(node, proto, parent)
        self.nonuniq = not self.sup(2)

    def parse_kind(self):
        p = self.props
        self.upd_type()
        self.upd_endian()
        self.upd_length()
        self.upd_bitlen()
        self.upd_scaling()
        o = p.one("serOffset") or ""
        if o:
            self.offset = to_int(o)
        self.upd_minmax()
        self.boolprop("nonUniqueSpecialsAllowed", "nonuniq")
        self.upd_specials()
        d = p.one("defaultValue") or ""
        if d:
            self.upd_default(d)
        d = p.one("defaultValidValue")
        if d is not None:
            if not self.sup(4):
                self.warn("defaultValidValue")
            else:
                self.upd_default(d)
                self.ranges.append((self.default, self.default, self.since, self.depr))
        self.boolprop("validCheckVersion", "vcv")
        self.upd_ranges()
        u = p.one("units")
        if u is not None:
            self.units = to_units(u)
        u = p.one("displayDecimals")
        if u is not None:
            self.decimals = to_unsigned(u)
        u = p.one("displayOffset")
        if u is not None:
            self.doffset = to_int(u)
        self.boolprop("signExt", "signext")
        if p.first("signExt"):
            b = self.bitlen() or self.minlen() * 8
            if not tsigned(self.type) or TLEN[self.type] * 8 <= b:
                self.warn("signExt")
        self.deprecated_prop("displaySpecials")
        self.boolprop("availableLengthLimit", "avail")

    def upd_scaling(self):
        n, d = self.scaling[0] or 1, self.scaling[1] or 1
        s = self.props.one("scaling") or ""
        if s:
            t = s.split("/")
            if len(t) > 2:
                raise Reject("scaling")
            n, d = to_int(t[0]), to_int(t[1]) if len(t) == 2 else 1
            if not n or not d:
                raise Reject("scaling")
        self.scaling = (n, d)

    def upd_minmax(self):
        self.vmin, self.vmax = self.base_range()
        if not self.offset:
            return
        lo, hi = trange(self.type)
        if TLEN[self.type] < 8 and abs(self.offset) >= hi - lo:
            raise Reject("serOffset")
        blo, bhi = (0, U64MAX) if not tsigned(self.type) else (I64MIN, I64MAX)
        o = self.offset
        if o < 0:
            self.vmin = self.vmin - o
            if self.vmax < bhi + o:
                self.vmax -= o
        else:
            if blo + o < self.vmin:
                self.vmin -= o
            self.vmax -= o

    def lookup(self, s):
        return self.specials[s][0] if s in self.specials else None

    def upd_specials(self):
        seen = set()
        for n in self.node.elems(("special",)):
            p, name, val = self.named_value(n)
            if not valid_name(name) or name in self.specials:
                raise Reject("special name")
            v = self.strval(val)
            if not self.nonuniq:
                if v in seen:
                    raise Reject("special value repeated")
                seen.add(v)
            self.in_type(v)
            s, d = self.versions(p, self.since, self.depr)
            self.specials[name] = (v, s, d, p.first("description") or "", p.first("displayName") or "")

    def upd_default(self, s):
        v = self.strval(s)
        self.in_type(v)
        self.default = v

    def one_range(self, prop, s):
        lo, hi = trange(self.type)
        if prop == "validRange":
            a, b = [self.strval(x) for x in to_range(s)]
            if a > b:
                raise Reject("range order")
            chk = (a, b)
        else:
            v = self.strval(s)
            chk = (v,)
            a = self.vmin if prop == "validMax" else v
            b = self.vmax if prop == "validMin" else v
        if any(not lo <= c <= hi for c in chk):
            self.warn("range")
        return a, b

    def upd_ranges(self):
        attrs = self.node.props()
        for prop in ("validRange", "validValue", "validMin", "validMax"):
            if prop in attrs:
                a, b = self.one_range(prop, attrs[prop])
                self.ranges.append((a, b, self.since, self.depr))
            for c in self.node.elems((prop,)):
                a, b = self.one_range(prop, node_value(c))
                s, d = node_versions(self.proto, c, self.since, self.depr)
                self.ranges.append((a, b, s, d))
        self.ranges = merge_ranges(self.ranges, 1)

    def sem_allowed(self, s): return s == 1 or (s == 3 and self.sup(2))

    def val_num(self, ref):
        if not self.sup(2):
            raise Reject("value reference")
        if not ref:
            return self.default
        if ref not in self.specials:
            raise Reject("no special " + ref)
        return self.specials[ref][0]

    def dump_kind(self):
        return {"type": self.type, "endian": self.endian, "offset": self.offset, "min": s64(self.vmin), "max": s64(self.vmax), "def": s64(self.default), "sc_num": self.scaling[0], "sc_den": self.scaling[1],
                "ranges": [[s64(a), s64(b), s, d] for a, b, s, d in self.ranges], "specials": [[k, s64(v[0])] + list(v[1:]) for k, v in sorted(self.specials.items())], "units": self.units, "vcv": self.vcv,
                "decimals": self.decimals, "doffset": self.doffset, "signext": self.signext, "avail": self.avail}


def merge_ranges(rs, gap):
    """canonical list: ranges of the same versions that touch are joined; ordered by value"""
    out = []
    for r in sorted(rs, key=lambda r: (r[2], r[3], r[0], r[1])):
        if out and out[-1][2:] == r[2:] and r[0] <= out[-1][1] + gap:
            out[-1] = (out[-1][0], max(out[-1][1], r[1]), r[2], r[3])
        else:
            out.append(r)
    return sorted(out, key=lambda r: (r[0], r[1], r[2], r[3]))


class EnumField(Numeric):
    kind = "enum"
    XP = ("type", "defaultValue", "endian", "length", "bitLength", "nonUniqueAllowed", "validCheckVersion", "hexAssign", "availableLengthLimit")
    XC = ("validValue",)
    K = {"type": None, "endian": None, "length": 0, "bits": 0, "vmin": 0, "vmax": 0, "nonuniq": False, "vcv": False, "values": dict, "order": list, "default": 0, "hexassign": False, "avail": False}

    def parse_kind(self):
        p = self.props
        self.upd_type()
        self.upd_endian()
        self.upd_length()
        self.upd_bitlen()
        self.boolprop("nonUniqueAllowed", "nonuniq")
        self.boolprop("validCheckVersion", "vcv")
        self.vmin, self.vmax = self.base_range()
        vals = self.node.elems(("validValue",))
        if not vals and not self.values:
            raise Reject("no enum values")
        for n in vals:
            p2, name, val = self.named_value(n)
            for k in [k for k in n.props() if k not in VALUE_PROPS] + [c.name for c in n.elems() if c.name not in VALUE_PROPS]:
                if not any(k.startswith(x) for x in self.proto.prefixes):
                    self.warn("unknown")
            if not valid_name(name) or name in self.values:
                raise Reject("enum value name")
            v = self.strval(val)
            self.in_type(v)
            if not self.nonuniq and any(x[0] == v for x in self.values.values()):
                raise Reject("enum value repeated")
            s, d = self.versions(p2, self.since, self.depr)
            dn = p2.first("displayName")
            self.values[name] = (v, s, d, p2.first("description") or "", self.proto.deref_str(dn) if dn is not None else "")
            self.order.append(name)
        d = p.one("defaultValue") or ""
        if d:
            v = self.strval(d)
            self.in_type(v)
            self.default = v
        self.boolprop("hexAssign", "hexassign")
        if p.first("hexAssign") and tsigned(self.type):
            raise Reject("hexAssign")
        self.boolprop("availableLengthLimit", "avail")

    def lookup(self, s): return self.values[s][0] if s in self.values else None
    def sem_allowed(self, s): return s == 2

    def val_num(self, ref):
        if not ref:
            if not self.sup(2):
                raise Reject("value reference")
            return self.default
        if ref not in self.values:
            raise Reject("no enum value " + ref)
        return self.values[ref][0]

    def dump_kind(self):
        rev = sorted([[s64(self.values[n][0]), n] for n in self.order], key=lambda r: r[0])
        return {"type": self.type, "endian": self.endian, "def": s64(self.default), "values": [[k, s64(v[0])] + list(v[1:]) for k, v in sorted(self.values.items())], "rev": rev,
                "nonuniq": self.nonuniq, "uniq": len({r[0] for r in rev}) == len(rev), "vcv": self.vcv, "hex": self.hexassign, "avail": self.avail}


class SetField(Field):
    kind = "set"
    XP = ("defaultValue", "endian", "length", "bitLength", "reservedValue", "validCheckVersion", "type", "nonUniqueAllowed", "availableLengthLimit")
    XC = ("bit",)
    BITP = ("name", "idx", "defaultValue", "reservedValue", "reserved", "sinceVersion", "deprecated", "description", "displayName")
    K = {"endian": None, "type": None, "length": 0, "bits": 0, "nonuniq": False, "vcv": False, "defbit": False, "resbit": False, "avail": False, "bitmap": dict, "order": list}

    def is_unique(self): return len({b[0] for b in self.bitmap.values()}) == len(self.bitmap)

    def boolref(self, s):
        if s.lower() in ("true", "false", "1", "0"):
            return to_bool(s)
        if not self.sup(2):
            raise Reject("bool " + s)
        return self.proto.value("bool", s)

    def parse_kind(self):
        p = self.props
        Numeric.upd_endian(self)
        t = p.one("type")
        if t is not None:
            t = itype(t)
            if tsigned(t) or (self.type is not None and self.type != t):
                raise Reject("set type")
            self.type = t
        inb = self.in_bitfield()
        l = p.one("length", self.type is None and not self.length and not inb) or ""
        mx = TLEN[self.type] if self.type is not None else 8
        if l:
            n = to_uint(l)
            if not 0 < n <= mx or (self.length and self.length != n):
                raise Reject("set length")
            self.length = n
        elif not self.length and self.type is not None:
            self.length = mx
        b = p.one("bitLength", inb and not self.bits and not self.length) or ""
        if not b:
            self.bits = self.bits or self.length * 8
        elif not inb:
            self.warn("bitLength")
            self.bits = self.length * 8
        else:
            self.bits = to_uint(b)
            if not self.bits or (self.length and self.bits > self.length * 8) or self.bits > 64:
                raise Reject("set bitLength")
        self.length = self.length or (self.bits - 1) // 8 + 1
        if not self.length:
            raise Reject("set length")
        if self.type is None:
            self.type = (1, 3, 5, 5, 7, 7, 7, 7)[self.length - 1]
        v = p.one("nonUniqueAllowed")
        if v:
            n = to_bool(v)
            if self.nonuniq and not n and not self.is_unique():
                raise Reject("nonUniqueAllowed")
            self.nonuniq = n
        elif v is not None:
            to_bool(v)
        self.boolprop("validCheckVersion", "vcv")
        if "defaultValue" in p:
            self.defbit = self.boolref(p.first("defaultValue"))
        if "reservedValue" in p:
            self.resbit = self.boolref(p.first("reservedValue"))
        self.boolprop("availableLengthLimit", "avail")
        for n in self.node.elems(("bit",)):
            self.one_bit(n)

    def one_bit(self, n):
        p = Props(n, (self.BITP, True))
        name, idx = p.one("name", True), p.one("idx", True)
        for k in self.BITP:
            p.one(k)
        for k in [k for k in n.props() if k not in self.BITP] + [c.name for c in n.elems() if c.name not in self.BITP]:
            if not any(k.startswith(x) for x in self.proto.prefixes):
                self.warn("unknown")
        if not valid_name(name) or name in self.bitmap:
            raise Reject("bit name")
        idx = to_unsigned(idx)
        if idx >= self.bits or (not self.nonuniq and any(b[0] == idx for b in self.bitmap.values())):
            raise Reject("bit idx")
        dv = self.boolref(p.first("defaultValue")) if p.first("defaultValue") else self.defbit
        res = self.boolref(p.first("reserved")) if p.first("reserved") else False
        rv = self.boolref(p.first("reservedValue")) if p.first("reservedValue") else self.resbit
        s, d = self.versions(p, self.since, self.depr)
        if res and (self.since < s or d < self.depr):
            raise Reject("version of reserved bit")
        if self.nonuniq:
            for b in self.bitmap.values():
                if b[0] == idx and not (b[2] <= s or d <= b[1]) and (b[5], b[6], b[7]) != (dv, res, rv):
                    raise Reject("overlapping bits differ")
        dn = p.first("displayName")
        self.bitmap[name] = (idx, s, d, p.first("description") or "", self.proto.deref_str(dn) if dn is not None else "", dv, res, rv)
        self.order.append(name)

    def minlen(self): return self.length
    def bitlen(self): return self.bits if self.in_bitfield() else 0

    def cmp_value_kind(self, s):
        try:
            return (self.proto.value("num", s) if valid_ref(s) else to_int(s)) >= 0
        except Reject:
            return False

    def cmp_field_kind(self, o): return o.kind == "set"
    def valid_ref_kind(self, k): return k == "inner"
    def inner_ref_kind(self, s): return RefInfo(self, "inner", s) if s in self.bitmap else None

    def val_bool(self, ref):
        if not self.sup(2):
            raise Reject("value reference")
        if not ref:
            return self.defbit
        if ref not in self.bitmap:
            raise Reject("no bit " + ref)
        return self.bitmap[ref][5]

    def val_num(self, ref): return int(self.val_bool(ref))

    def check_bits(self, b):
        if not b or b > self.length * 8:
            raise Reject("bitLength")

    def dump_kind(self):
        rev = sorted([[self.bitmap[n][0], n] for n in self.order], key=lambda r: r[0])
        return {"type": self.type, "endian": self.endian, "defbit": self.defbit, "resbit": self.resbit, "bits": [[k] + list(b) for k, b in sorted(self.bitmap.items())], "rev": rev, "nonuniq": self.nonuniq,
                "uniq": self.is_unique(), "vcv": self.vcv, "avail": self.avail}


FMAX = {0: 3.4028234663852886e38, 1: 1.7976931348623157e308}


def dnum(v): return "nan" if math.isnan(v) else "inf" if v == math.inf else "-inf" if v == -math.inf else "%.17g" % v
def fkey(v): return (1, 0.0) if math.isnan(v) else (0, v)
def special(v): return math.isnan(v) or math.isinf(v)


class FloatField(Field):
    kind = "float"
    XP = ("type", "defaultValue", "endian", "validRange", "validFullRange", "validValue", "validMin", "validMax", "validCheckVersion", "units", "displayDecimals", "nonUniqueSpecialsAllowed", "displaySpecials")
    XC = ("special",)
    K = {"type": None, "endian": None, "nonuniq": None, "specials": dict, "default": 0.0, "vcv": False, "ranges": list, "units": 0, "decimals": 0}

    def __init__(self, node, proto, parent=None):
        super().__init__(node, proto, parent)
        self.nonuniq = not self.sup(2)

    def strval(self, s, specials=True):
        l = s.lower()
        if specials and l in ("nan", "inf", "-inf"):
            return float(l)
        if valid_name(s) and s in self.specials:
            return self.specials[s][0]
        if valid_ref(s):
            return self.proto.value("fp", s)
        return to_double(l, specials)

    def in_type(self, v):
        if not special(v) and not -FMAX[self.type] <= v <= FMAX[self.type]:
            raise Reject("fp range")
        return v

    def parse_kind(self):
        p = self.props
        t = p.one("type", self.type is None)
        if t is not None:
            if t.lower() not in ("float", "double"):
                raise Reject("float type")
            t = ("float", "double").index(t.lower())
            if self.type is not None and t != self.type:
                raise Reject("float type changed")
            self.type = t
        Numeric.upd_endian(self)
        self.boolprop("nonUniqueSpecialsAllowed", "nonuniq")
        seen = set()
        for n in self.node.elems(("special",)):
            q, name, val = Numeric.named_value(self, n)
            if not valid_name(name) or name in self.specials:
                raise Reject("special name")
            v = self.strval(val)
            if not self.nonuniq:
                if dnum(v + 0.0) in seen:
                    raise Reject("special repeated")
                seen.add(dnum(v + 0.0))
            self.in_type(v)
            s, d = self.versions(q, self.since, self.depr)
            self.specials[name] = (v, s, d, q.first("description") or "", q.first("displayName") or "")
        d = p.one("defaultValue") or ""
        if d:
            self.default = self.in_type(self.strval(d))
        self.boolprop("validCheckVersion", "vcv")
        p.one("validFullRange")
        attrs = self.node.props()
        for prop in ("validFullRange", "validRange", "validValue", "validMin", "validMax"):
            if prop in attrs:
                r = self.one_range(prop, attrs[prop])
                if r:
                    self.ranges.append(r + (self.since, self.depr))
            for c in self.node.elems((prop,)):
                r = self.one_range(prop, node_value(c))
                if r:
                    self.ranges.append(r + node_versions(self.proto, c, self.since, self.depr))
        self.merge()
        u = p.one("units")
        if u is not None:
            self.units = to_units(u)
        u = p.one("displayDecimals")
        if u is not None:
            self.decimals = to_unsigned(u)
        self.deprecated_prop("displaySpecials")

    def one_range(self, prop, s):
        m = FMAX[self.type]
        if prop == "validFullRange":
            return (-m, m) if to_bool(s) else None
        if prop == "validRange":
            a, b = [self.strval(x, False) for x in to_range(s)]
            if b < a:
                raise Reject("range order")
            return a, b
        v = self.in_type(self.strval(s, prop == "validValue"))
        return (v if prop != "validMax" else -m, v if prop != "validMin" else m)

    def merge(self):
        out = []
        for r in sorted(self.ranges, key=lambda r: (r[2], r[3], fkey(r[0]), fkey(r[1]))):
            l = out[-1] if out else None
            if l and l[2:] == r[2:] and not special(l[1]) and not special(r[0]) and r[0] <= l[1]:
                out[-1] = (l[0], max(l[1], r[1]), r[2], r[3])
            else:
                out.append(r)
        self.ranges = sorted(out, key=lambda r: (fkey(r[0]), fkey(r[1]), r[2], r[3]))

    def minlen(self): return (4, 8)[self.type]
    def cmp_value_kind(self, s): return ok(self.strval, s)
    def valid_ref_kind(self, k): return k == "inner"
    def inner_ref_kind(self, s): return RefInfo(self, "inner", s) if s in self.specials else None

    def val_fp(self, ref):
        if not self.sup(2):
            raise Reject("value reference")
        if not ref:
            return self.default
        if ref not in self.specials:
            raise Reject("no special " + ref)
        return self.specials[ref][0]

    def dump_kind(self):
        vals = [dnum(v[0] + 0.0) for v in self.specials.values()]
        return {"type": self.type, "endian": self.endian, "def": dnum(self.default), "ranges": [[dnum(a), dnum(b), s, d] for a, b, s, d in self.ranges],
                "specials": [[k, dnum(v[0])] + list(v[1:]) for k, v in sorted(self.specials.items())], "units": self.units, "vcv": self.vcv, "decimals": self.decimals,
                "nonuniq": bool(self.nonuniq and len(set(vals)) < len(vals))}


# ---------------------------------------------------------------- composites
class Composite(Field):
    def member_nodes(self):
        """nodes of newly declared members, None when there are none"""
        mn = self.node.elems(("members",))
        direct = self.node.elems(self.MEMBER_TYPES)
        if len(mn) > 1 or (mn and direct):
            raise Reject("members twice")
        if not mn and not direct:
            if not self.members:
                raise Reject("no members")
            return None
        if direct and len(self.node.elems()) != len(direct):
            raise Reject("members mixed with other elements")
        nodes = mn[0].elems() if mn else direct
        if any(n.name not in self.MEMBER_TYPES for n in nodes):
            raise Reject("bad member type")
        return nodes

    def unique_names(self):
        n = [m.name for m in self.members]
        if len(set(n)) != len(n):
            raise Reject("member names")

    def drop_removed(self):
        self.members = [m for m in self.members if not (m.removed and m.depr <= self.since)]
        for m in self.members:
            m.since = max(m.since, self.since)

    def replace_members(self, ms):
        for m in ms:
            for i, c in enumerate(self.members):
                if c.name == m.name:
                    self.members[i] = m
                    break
            else:
                raise Reject("no member to replace " + m.name)

    def same_version(self):
        if not any(m.since == self.since for m in self.members):
            raise Reject("no member of the same version")

    def aliased_kind(self, rest):
        a, dot, b = rest.partition(".")
        for m in self.members:
            if m.name == a:
                return not dot or m.aliased(b)
        return False

    def upd_conds(self):
        c = self.props.one("copyValidCondFrom") or ""
        if c:
            if not self.sup(7):
                self.warn("copyValidCondFrom")
            else:
                f = self.proto.find("fields", c)
                if f is None or f.kind != self.kind or self.validcond:
                    raise Reject("copyValidCondFrom")
                if not f.validcond:
                    self.warn("no validCond")
                else:
                    self.validcond = f.validcond
                    self.validcond.verify(self.members, self.proto)
        cond = read_conds(self, "validCond", lambda: self.sup(7))
        if cond:
            if cond.has_iface():
                raise Reject("interface reference")
            cond.verify(self.members, self.proto)
            self.validcond = cond

    def sem_allowed(self, s): return s == 3 and self.sup(2) and self.sup(5)


class BitfieldField(Composite):
    kind = "bitfield"
    XP = ("endian", "copyValidCondFrom")
    XPOSS = ("validCond",)
    MEMBER_TYPES = ("int", "enum", "set", "ref")
    XC = MEMBER_TYPES + ("members", "validCond")
    K = {"endian": None, "validcond": None}

    def replace_members(self, ms):
        super().replace_members(ms)
        if any((m.since, m.depr) != (self.since, self.depr) for m in ms):
            raise Reject("bitfield member version")

    def parse_kind(self):
        Numeric.upd_endian(self)
        for m in self.members:
            m.since = max(m.since, self.since)
        nodes = self.member_nodes()
        if nodes is not None:
            if self.members:
                raise Reject("members of reused bitfield")
            for n in nodes:
                m = make_field(n, self.proto, self).parse()
                if (m.since, m.depr) != (self.since, self.depr):
                    raise Reject("bitfield member version")
                self.members.append(m)
            self.unique_names()
        total = sum(m.bitlen() for m in self.members)
        if total % 8 or total > 64:
            raise Reject("bitfield length")
        self.upd_conds()

    def minlen(self): return sum(m.bitlen() for m in self.members) // 8

    def dump_kind(self):
        return {"endian": self.endian, "members": [m.dump() for m in self.members], "validcond": self.validcond.dump() if self.validcond else None}


class BundleField(Composite):
    kind = "bundle"
    XP = ("reuseAliases", "copyValidCondFrom")
    XPOSS = ("validCond",)
    MEMBER_TYPES = tuple(FIELD_KINDS)
    XC = MEMBER_TYPES + ("members", "alias", "validCond")
    K = {"validcond": None, "aliases": list}

    def reuse_kind(self, f):
        self.copy_kind(f)
        self.aliases = []
        if self.sup(3):
            v = self.props.one("reuseAliases")
            if v is None or to_bool(v):
                self.aliases = [a.clone() for a in f.aliases]

    def replace_members(self, ms):
        super().replace_members(ms)
        verify_all(self.members)

    def parse_kind(self):
        self.drop_removed()
        verify_all(self.members)
        nodes = self.member_nodes()
        for n in nodes or []:
            m = make_field(n, self.proto, self).parse()
            m.verify_siblings(self.members)
            self.members.append(m)
        self.unique_names()
        self.same_version()
        if sum(m.sem == 3 for m in self.members) > 1:
            raise Reject("several length members")
        names = {m.name for m in self.members}
        self.aliases = [a for a in self.aliases if a.field.split(".")[0] in names]
        read_aliases(self, self.aliases, self.members)
        self.upd_conds()
        if self.validcond:
            self.validcond.verify(self.members, self.proto)

    def minlen(self): return sum(m.minlen() for m in self.members)

    def maxlen(self):
        if any(m.sem == 3 for m in self.members):
            return MAXLEN
        r = 0
        for m in self.members:
            r = sadd(r, m.maxlen())
        return r

    def dump_kind(self):
        return {"members": [m.dump() for m in self.members], "aliases": [a.dump() for a in self.aliases], "validcond": self.validcond.dump() if self.validcond else None}


def verify_all(fields):
    """the references between siblings"""
    for i, f in enumerate(fields):
        f.verify_siblings(fields[:i])


def read_aliases(o, aliases, fields):
    for i, a in enumerate(aliases):
        a.verify(aliases[:i], fields)
    nodes = o.node.elems(("alias",))
    if nodes and not o.sup(3):
        raise Reject("aliases unsupported")
    for n in nodes:
        a = Alias(n, o.proto).parse()
        a.verify(aliases, fields)
        aliases.append(a)


class VariantField(Composite):
    kind = "variant"
    XP = ("defaultMember", "displayIdxReadOnlyHidden")
    MEMBER_TYPES = tuple(FIELD_KINDS)
    XC = MEMBER_TYPES + ("members",)
    K = {"defidx": MAXLEN}

    def parse_kind(self):
        dm = self.members[self.defidx] if self.defidx < len(self.members) else None
        self.drop_removed()
        self.defidx = self.members.index(dm) if dm in self.members else MAXLEN
        nodes = self.member_nodes()
        for n in nodes or []:
            self.members.append(make_field(n, self.proto, self).parse())
        self.unique_names()
        self.same_version()
        d = self.props.one("defaultMember") or ""
        if d:
            names = [m.name for m in self.members]
            if valid_name(d):
                if d not in names:
                    raise Reject("defaultMember")
                self.defidx = names.index(d)
            else:
                v = self.proto.enum_value(d) if valid_ref(d) else to_int(d)
                if v >= len(names):
                    raise Reject("defaultMember")
                self.defidx = v if v >= 0 else MAXLEN
        self.deprecated_prop("displayIdxReadOnlyHidden")

    def minlen(self): return 0
    def maxlen(self): return max([m.maxlen() for m in self.members] or [0])
    def aliased_kind(self, rest): return False

    def sem_allowed(self, s): return False
    def dump_kind(self): return {"members": [m.dump() for m in self.members], "defidx": self.defidx}


# ---------------------------------------------------------------- strings, data, lists
def int_max_value(f):
    """largest value of an integral prefix field"""
    f = f.nonref() if f.kind == "ref" else f
    return f.vmax


class Prefixed(Field):
    """What strings and raw data share."""
    K0 = {"default": None, "length": 0, "prefix": None, "extprefix": None, "detached": "", "vv": list}
    zero = False

    def upd_fixed(self):
        l = self.props.one("length")
        if l is None:
            return
        n = to_unsigned(l)
        if n == self.length:
            if n == 0:
                raise Reject("zero length")
            return
        if n == 0 or self.lp() is not None or self.zero:
            raise Reject("length")
        self.length = n

    def lp(self): return self.prefix or self.extprefix

    def upd_prefix(self):
        s = self.props.one("lengthPrefix")
        kids = self.node.elems(("lengthPrefix",))
        if s is not None:
            if s[:1] == "$":
                self.detached_ok()
                self.detached = re.sub("[ \t\r\n]+", " ", s[1:])
                if not self.detached:
                    raise Reject("detached prefix")
                self.prefix = self.extprefix = None
            else:
                f = self.proto.find("fields", s) if s else None
                if f is None or (f.kind != "int" and f.sem != 3):
                    raise Reject("lengthPrefix " + s)
                self.prefix, self.extprefix, self.detached = None, f, ""
        f = child_prefix(self, kids, s is not None, "lengthPrefix")
        if f is not None:
            if f.kind != "int" and f.sem != 3:
                raise Reject("lengthPrefix")
            self.prefix, self.extprefix, self.detached = f, None, ""
        if self.lp() is not None and (self.length or self.zero):
            raise Reject("prefix and length")

    def upd_values(self):
        p = self.props
        d = p.one("defaultValue")
        if d is not None:
            self.default = self.conv(d)
        if self.length and len(self.default_len()) > self.length:
            self.warn("default too long")
        d = p.one("defaultValidValue")
        if d is not None:
            if not self.sup(7):
                self.warn("defaultValidValue")
            else:
                self.default = self.conv(d)
                self.vv.append((self.default, self.since, self.depr))
        a = self.node.props()
        if "validValue" in a:
            self.add_vv(a["validValue"], None)
        for n in self.node.elems(("validValue",)):
            self.add_vv(node_value(n), n)
        self.vv.sort(key=lambda v: v[0] if isinstance(v[0], bytes) else v[0].encode())

    def default_len(self): return self.default

    def add_vv(self, s, n):
        if not self.sup(7):
            return self.warn("validValue")
        v = self.conv(s)
        sd = node_versions(self.proto, n, self.since, self.depr) if n is not None else (self.since, self.depr)
        self.vv.append((v,) + sd)

    def verify_siblings(self, fields):
        if self.detached:
            f = find_in(fields, self.detached)
            if f.nonref().kind != "int" and f.sem != 3:
                raise Reject("detached prefix kind")

    def minlen(self):
        if self.length:
            return self.length
        if self.zero:
            return 1
        return self.lp().minlen() if self.lp() is not None else 0

    def maxlen(self):
        if self.length:
            return self.length
        p = self.lp()
        if p is not None and p.kind == "int":
            return sadd(p.maxlen(), p.vmax)
        return MAXLEN

    def valid_ref_kind(self, k): return k == "size"


def child_prefix(o, kids, has_prop, name):
    """field declared inside of a (single) child element, None if there is none"""
    if not kids:
        return None
    if len(kids) > 1:
        raise Reject("several " + name)
    fs = kids[0].elems()
    if len(fs) > 1:
        raise Reject("several fields in " + name)
    if not fs:
        if has_prop:
            return None
        raise Reject("empty " + name)
    if has_prop:
        raise Reject(name + " twice")
    return make_field(fs[0], o.proto, o).parse()


class StringField(Prefixed):
    kind = "string"
    XP = ("defaultValue", "encoding", "length", "zeroTermSuffix", "validValue", "defaultValidValue")
    XPOSS = ("lengthPrefix",)
    XC = ("lengthPrefix",)
    K = dict(Prefixed.K0, default="", enc="", zero=False)

    def conv(self, s): return self.proto.deref_str(s)

    def default_len(self): return self.default.encode()

    def parse_kind(self):
        e = self.props.one("encoding")
        if e is not None:
            self.enc = e
        self.upd_fixed()
        self.upd_prefix()
        z = self.props.one("zeroTermSuffix")
        if z is not None:
            z = to_bool(z)
            if z and (self.length or self.lp() is not None or self.detached):
                raise Reject("zeroTermSuffix")
            self.zero = z
        self.upd_values()

    def cmp_value_kind(self, s):
        if s[:1] == "^":
            return ok(self.proto.value, "str", s[1:])
        return True

    def cmp_field_kind(self, o): return False

    def val_str(self, ref):
        if ref or not self.sup(2):
            raise Reject("value reference")
        return self.default

    def dump_kind(self):
        d = {"def": self.default, "enc": self.enc, "fixedlen": self.length, "haslp": self.lp() is not None, "zero": self.zero, "detached": self.detached, "vv": [list(v) for v in self.vv]}
        if self.lp() is not None:
            d["lp"] = self.lp().dump()
        return d


class DataField(Prefixed):
    kind = "data"
    XP = ("defaultValue", "length", "validValue", "defaultValidValue")
    XPOSS = ("lengthPrefix",)
    XC = ("lengthPrefix",)
    K = dict(Prefixed.K0, default=b"")

    def conv(self, s):
        if s[:1] == "^" and self.sup(2):
            return self.proto.value("data", s[1:])
        t = s.replace(" ", "")
        if len(t) % 2 or not re.match(r"[0-9a-fA-F]*\Z", t):
            raise Reject("hex")
        return bytes.fromhex(t)

    def parse_kind(self):
        self.upd_fixed()
        self.upd_prefix()
        self.upd_values()

    def val_data(self, ref):
        if ref or not self.sup(2):
            raise Reject("value reference")
        return self.default

    def dump_kind(self):
        d = {"def": self.default.hex(), "fixedlen": self.length, "haslp": self.lp() is not None, "detached": self.detached, "vv": [[v[0].hex()] + list(v[1:]) for v in self.vv]}
        if self.lp() is not None:
            d["lp"] = self.lp().dump()
        return d


PFX = ("countPrefix", "lengthPrefix", "elemLengthPrefix", "termSuffix")


class ListField(Field):
    kind = "list"
    XP = ("count", "elemFixedLength")
    XPOSS = ("element",) + PFX
    XC = ("element",) + PFX + tuple(FIELD_KINDS)
    K = {"count": 0, "elem": None, "extelem": None, "epfixed": False, "pfx": dict, "ext_pfx": dict, "det": dict}

    def el(self): return self.elem or self.extelem
    def p(self, n): return self.pfx.get(n) or self.ext_pfx.get(n)
    def has(self, n): return self.p(n) is not None or bool(self.det.get(n))

    def parse_kind(self):
        self.upd_element()
        self.upd_count()
        self.upd_prefix("countPrefix", ("lengthPrefix", "termSuffix"))
        self.upd_prefix("lengthPrefix", ("countPrefix", "termSuffix"))
        self.upd_prefix("elemLengthPrefix", ())
        v = self.props.one("elemFixedLength")
        if v is not None:
            self.epfixed = to_bool(v)
        if self.epfixed and self.el().minlen() != self.el().maxlen():
            raise Reject("elemFixedLength")
        if self.det.get("elemLengthPrefix") and not self.epfixed:
            raise Reject("detached element length prefix")
        self.upd_prefix("termSuffix", ("countPrefix", "lengthPrefix"))

    def upd_element(self):
        s = self.props.one("element")
        if s is not None:
            f = self.proto.find("fields", s) if s else None
            if f is None:
                raise Reject("element " + s)
            self.elem, self.extelem = None, f
        f = field_child(self, "element", s is not None)
        if f is not None:
            self.elem, self.extelem = f, None
        if self.el() is None:
            raise Reject("no element")

    def upd_count(self):
        c = self.props.one("count")
        if c is None:
            return
        n = to_unsigned(c)
        if n == 0 or (n != self.count and any(self.has(x) for x in PFX if x != "elemLengthPrefix")):
            raise Reject("count")
        self.count = n

    def upd_prefix(self, name, exclusive):
        s = self.props.one(name)
        if s is not None:
            if s[:1] == "$":
                self.detached_ok()
                d = re.sub("[ \t\r\n]+", " ", s[1:])
                if not d:
                    raise Reject("detached " + name)
                self.set_prefix(name, None, None, d)
            else:
                f = self.proto.find("fields", s) if s else None
                if f is None or not self.prefix_kind_ok(name, f):
                    raise Reject(name)
                self.set_prefix(name, None, f, "")
        f = child_prefix(self, self.node.elems((name,)), s is not None, name)
        if f is not None:
            if not self.prefix_kind_ok(name, f):
                raise Reject(name)
            self.set_prefix(name, f, None, "")
        if name == "termSuffix" and self.has(name) and not self.sup(5):
            self.warn(name)
            self.set_prefix(name, None, None, "")
        if self.has(name) and (any(self.has(x) for x in exclusive) or (exclusive and self.count)):
            raise Reject(name + " conflicts")

    def prefix_kind_ok(self, name, f):
        return f.kind == "int" or f.sem == 3

    def set_prefix(self, name, own, ext, det):
        self.pfx[name], self.ext_pfx[name], self.det[name] = own, ext, det

    def verify_siblings(self, fields):
        for n in PFX:
            if self.det.get(n):
                f = find_in(fields, self.det[n])
                if n != "termSuffix" and f.nonref().kind != "int" and f.sem != 3:
                    raise Reject("detached prefix kind")

    def minlen(self):
        if self.count:
            r = smul(self.el().minlen(), self.count)
            e = self.p("elemLengthPrefix")
            return r if e is None else sadd(r, smul(e.minlen(), 1 if self.epfixed else self.count))
        for n in ("countPrefix", "lengthPrefix", "termSuffix"):
            if self.p(n) is not None:
                return self.p(n).minlen()
        return 0

    def maxlen(self):
        e = self.p("elemLengthPrefix")

        def rep(n):
            r = smul(self.el().maxlen(), n)
            return r if e is None else sadd(r, smul(e.maxlen(), 1 if self.epfixed else n))
        if self.count:
            return rep(self.count)
        c, l = self.p("countPrefix"), self.p("lengthPrefix")
        if c is not None and c.kind == "int":
            return sadd(rep(c.vmax), c.maxlen())
        if l is not None and l.kind == "int":
            return sadd(l.maxlen(), l.vmax)
        return MAXLEN

    def valid_ref_kind(self, k): return k == "size"

    def dump_kind(self):
        d = {"elem": self.el().dump(), "count": self.count, "epfixed": self.epfixed}
        for n, s in zip(PFX, ("cp", "lp", "ep", "ts")):
            f = self.p(n)
            d["has" + s] = f is not None
            if f is not None:
                d[s] = f.dump()
            d["d" + s] = self.det.get(n, "")
        return d


def field_child(o, name, has_prop):
    """field given as a direct child or inside of the child element <name>"""
    kids, direct = o.node.elems((name,)), o.node.elems(FIELD_KINDS)
    if len(kids) > 1 or (kids and direct) or len(direct) > 1:
        raise Reject("several " + name)
    if direct:
        if len(o.node.elems()) != 1 or has_prop:
            raise Reject(name + " mixed")
        return make_field(direct[0], o.proto, o).parse()
    if not kids:
        return None
    fs = kids[0].elems()
    if len(fs) > 1:
        raise Reject("several " + name)
    if has_prop:
        if name in o.node.attrs:
            raise Reject(name + " twice")
        return None
    if not fs:
        raise Reject("empty " + name)
    return make_field(fs[0], o.proto, o).parse()


# ---------------------------------------------------------------- ref and optional
class RefField(Field):
    kind = "ref"
    XP = ("field", "bitLength")
    K = {"field": None, "bits": 0}

    def copy_kind(self, o): self.field, self.bits = o.field, o.bits

    def parse_kind(self):
        s = self.props.one("field", self.field is None)
        if s is None:
            return self.ref_bits(False)
        self.field = self.proto.find("fields", s) if s else None
        if self.field is None:
            raise Reject("ref field " + s)
        self.ref_bits(True)
        self.name = self.name or self.field.name
        self.dname = self.dname or self.field.dname
        if self.sup(2) and not self.sem and self.field.sem != 2:
            self.sem = self.field.sem

    def ref_bits(self, new):
        b = self.props.one("bitLength") or ""
        if not b:
            if new or not self.bits:
                self.bits = self.maxlen() * 8
        elif not self.in_bitfield():
            self.warn("bitLength")
        else:
            self.bits = to_unsigned(b)
            self.check_bits(self.bits)

    def check_bits(self, b):
        c = getattr(self.field, "check_bits", None)
        if c is None:
            raise Reject("bitLength")
        c(b)

    def minlen(self): return self.field.minlen()
    def maxlen(self): return self.field.maxlen()
    def bitlen(self): return self.bits if self.in_bitfield() else 0
    def nonref(self): return self.field.nonref()
    def nonref_cmp(self): return self.field.nonref_cmp()
    def cmp_value(self, s): return self.field.cmp_value(s)
    def cmp_field(self, o): return self.field.cmp_field(o)
    def sem_allowed(self, s): return self.field.sem_allowed(s)
    def inner_ref(self, s): return self.field.inner_ref(s) if s else RefInfo(self)
    def valid_ref_kind(self, k): return self.field.valid_ref_type(k)
    def value(self, how, ref):
        if not self.sup(2):
            return self.no_value()
        return self.field.value(how, ref)

    def dump_kind(self): return {"ref": self.field.dump()}


OPTMODES = {"tent": 0, "tentative": 0, "t": 0, "exists": 1, "exist": 1, "e": 1, "miss": 2, "missing": 2, "m": 2}


class OptionalField(Field):
    kind = "optional"
    XP = ("defaultMode", "cond", "displayExtModeCtrl", "missingOnReadFail", "missingOnInvalid")
    XPOSS = ("field",)
    XC = ("field", "and", "or") + tuple(FIELD_KINDS)
    K = {"mode": 0, "own": None, "extf": None, "cond": None, "mrf": False, "moi": False}

    def fld(self): return self.own or self.extf

    def parse_kind(self):
        p = self.props
        m = p.one("defaultMode")
        if m is not None:
            if m.lower() not in OPTMODES:
                raise Reject("defaultMode")
            self.mode = OPTMODES[m.lower()]
        self.deprecated_prop("displayExtModeCtrl")
        self.boolprop("missingOnReadFail", "mrf")
        self.boolprop("missingOnInvalid", "moi")
        s = p.one("field")
        if s is not None:
            f = self.proto.find("fields", s) if s else None
            if f is None:
                raise Reject("optional field " + s)
            self.own, self.extf = None, f
        f = field_child(self, "field", s is not None)
        if f is not None:
            self.own, self.extf = f, None
        if self.fld() is None:
            raise Reject("no field")
        c = p.one("cond")
        if c is not None:
            if not (self.parent is not None and (self.parent.okind == "message" or (self.parent.okind == "field" and self.parent.kind == "bundle"))):
                self.warn("cond")
            self.cond = Expr(c, self.proto)
        multi = self.node.elems(("and", "or"))
        if multi:
            if c is not None or len(multi) > 1:
                raise Reject("several conditions")
            self.cond = CondList(multi[0], self.proto, "cond")

    def verify_siblings(self, fields):
        if self.cond:
            self.cond.verify(fields, self.proto)

    def minlen(self): return 0
    def maxlen(self): return self.fld().maxlen()

    def inner_ref_kind(self, s):
        a, _, b = s.partition(".")
        return self.own.inner_ref(b) if self.own is not None and a == self.own.name else None

    def valid_ref_kind(self, k): return k == "exists"

    def value(self, how, ref):
        if not ref or not self.sup(2) or self.own is None:
            return self.no_value()
        a, _, b = ref.partition(".")
        if a != self.own.name:
            raise Reject("optional value reference")
        return self.own.value(how, b)

    def dump_kind(self):
        return {"mode": self.mode, "field": self.fld().dump(), "cond": self.cond.dump() if self.cond else None, "mrf": self.mrf, "moi": self.moi}


CLASSES = {c.kind: c for c in (IntField, EnumField, SetField, FloatField, BitfieldField, BundleField, StringField, DataField, ListField, RefField, OptionalField, VariantField)}


def make_field(node, proto, parent):
    if node.name not in CLASSES:
        raise Reject("unknown field kind " + node.name)
    return CLASSES[node.name](node, proto, parent)


# ---------------------------------------------------------------- conditions
def operand(s):
    """(type, mode, access): type 0 none 1 value 2 sibling 3 interface; mode 0 itself 1 size 2 exists"""
    if not s:
        return [0, 0, ""]
    if s[0] not in "$%":
        return [1, 0, s]
    m = {"#": 1, "?": 2}.get(s[1:2], 0)
    return [2 if s[0] == "$" else 3, m, s[2:] if m else s[1:]]


class Expr:
    OPS = ("!=", ">=", "<=", "=", ">", "<")

    def __init__(self, s, proto):
        if not s:
            raise Reject("empty condition")
        self.left = self.op = self.right = ""
        for op in self.OPS:
            pos = 0
            while True:
                pos = s.find(op, pos)
                if pos == 0:
                    raise Reject("condition " + s)
                if pos < 0 or s[pos - 1] != "\\":
                    break
                pos += 1
            if pos < 0:
                continue
            self.left, self.op, self.right = s[:pos].rstrip(" "), op, s[pos + len(op):].lstrip(" ")
            if not self.left or not self.right:
                raise Reject("condition " + s)
            break
        else:
            if s[0] == "!":
                self.op, s = "!", s[1:].lstrip(" ")
            self.right = s
        first = self.left or self.right
        if first[:1] not in ("$", "%") or (first[0] == "%" and not proto.sup(6)):
            raise Reject("condition " + s)

    def has_iface(self): return self.left[:1] == "%" or self.right[:1] == "%"

    def verify(self, fields, proto):
        l, r = self.left, self.right
        if not l:
            if r[0] == "$":
                i = sibling_ref(fields, r[1:])
                if i is None or i.kind not in ("inner", "exists") or (i.kind == "exists" and not proto.sup(6)) or (i.kind == "inner" and i.field.kind != "set"):
                    raise Reject("condition " + r)
            elif not any(i.kind == "inner" and i.field.kind == "set" for i in proto.iface_refs(r[1:])):
                raise Reject("condition " + r)
            return
        if l[0] == "$":
            i = sibling_ref(fields, l[1:])
            left = [i] if i else []
        else:
            left = proto.iface_refs(l[1:])
        if any(i.kind == "size" for i in left):
            if not proto.sup(6):
                raise Reject("size comparison")
            to_int(r)
            return
        left = [i.field for i in left if i.kind == "field"]
        if r[0] == "$":
            i = sibling_ref(fields, r[1:])
            right = [i.field] if i and i.kind == "field" else []
        elif r[0] == "%":
            right = [i.field for i in proto.iface_refs(r[1:]) if i.kind == "field"]
        else:
            if not any(f.cmp_value(r) for f in left):
                raise Reject("comparison with " + r)
            return
        if not any(a.cmp_field(b) for a in left for b in right):
            raise Reject("comparison " + l + r)

    def only_assign(self): return not self.left or self.op == "="
    def dump(self): return [self.left, self.op, self.right, operand(self.left), operand(self.right)]


class CondList:
    def __init__(self, node, proto, elem):
        self.type, self.conds = node.name, []
        for c in node.elems():
            if c.name == elem:
                self.conds.append(Expr(node_value(c), proto))
            elif c.name in ("and", "or"):
                self.conds.append(CondList(c, proto, elem))
            else:
                raise Reject("condition element " + c.name)
        if len(self.conds) < 2:
            raise Reject("too few conditions")

    def has_iface(self): return any(c.has_iface() for c in self.conds)

    def verify(self, fields, proto):
        for c in self.conds:
            c.verify(fields, proto)

    def only_assign(self): return self.type == "and" and all(c.only_assign() for c in self.conds)
    def dump(self): return {self.type: [c.dump() for c in self.conds]}


def read_conds(o, prop, supported, check=None):
    """condition given as an expression or as a tree of and/or elements"""
    res = None
    s = o.props.one(prop)
    if s is not None:
        if not supported():
            o.warn(prop)
        else:
            res = Expr(s, o.proto)
            if check:
                check(res)
    kids = [k for k in o.node.elems((prop,)) if "value" not in k.attrs and (k.elems() or not k.text().strip(WS))]
    if not kids:
        return res
    if not supported():
        o.warn(prop)
        return res
    if len(kids) > 1 or len(kids[0].elems(("and", "or"))) != 1 or s is not None:
        raise Reject(prop)
    res = CondList(kids[0].elems(("and", "or"))[0], o.proto, prop)
    if check:
        check(res)
    return res


# ---------------------------------------------------------------- messages and interfaces
class FieldsHolder(Obj):
    aliases_of = None

    def add_fields(self):
        nodes, direct = self.node.elems(("fields",)), self.node.elems(FIELD_KINDS)
        if len(nodes) > 1 or (nodes and direct):
            raise Reject("fields twice")
        if not nodes and not direct:
            return False
        if direct and len(self.node.elems()) != len(direct):
            raise Reject("fields mixed with other elements")
        for n in (nodes[0].elems() if nodes else direct):
            f = make_field(n, self.proto, self).parse()
            f.verify_siblings(self.fields)
            self.fields.append(f)
        names = [f.name for f in self.fields]
        if len(names) != len(set(names)):
            raise Reject("field names")
        return True

    def copy_fields(self, kind):
        r = self.props.one("copyFieldsFrom")
        if r is None:
            return
        if self.fields:
            raise Reject("copyFieldsFrom after reuse")
        o = self.proto.find(kind, r) if r else None
        if o is not None:
            src = o.fields
        else:
            if not self.sup(4):
                raise Reject("copyFieldsFrom")
            o = self.proto.find("fields", r) if r else None
            if o is None or o.kind != "bundle":
                raise Reject("copyFieldsFrom " + r)
            src = o.members
        self.copied = o
        self.fields = [f.clone(self) for f in src]

    def copy_aliases(self):
        a = self.props.one("copyFieldsAliases")
        if not self.sup(3):
            if a is not None:
                raise Reject("copyFieldsAliases")
            return
        if a is not None and not to_bool(a):
            return
        if a is not None and self.copied is None:
            return self.warn("copyFieldsAliases")
        if self.copied is not None:
            self.aliases += [x.clone() for x in self.copied.aliases]
        names = {f.name for f in self.fields}
        self.aliases = [x for x in self.aliases if x.field.split(".")[0] in names]

    def reuse_holder(self, kind, feature=7):
        r = self.props.one("reuse")
        if r is None:
            return None
        if not self.sup(feature):
            return self.warn("reuse")
        o = self.proto.find(kind, r) if r else None
        if o is None:
            raise Reject("reuse " + r)
        self.fields = [f.clone(self) for f in o.fields]
        v = self.props.one("reuseAliases")
        if v is None or to_bool(v):
            self.aliases = [a.clone() for a in o.aliases]
        v = self.props.one("reuseCode")
        self.copycode = ""
        if v is not None:
            if not self.sup(5):
                self.warn("reuseCode")
            elif to_bool(v):
                self.copycode = r
        return o


MSGP = ("name", "id", "displayName", "description", "sinceVersion", "deprecated", "removed", "copyFieldsFrom", "copyFieldsAliases", "order", "platforms", "customizable", "sender", "validateMinLength", "readOverride",
        "writeOverride", "refreshOverride", "lengthOverride", "validOverride", "nameOverride", "copyCodeFrom", "constructAsReadCond", "constructAsValidCond", "failOnInvalid", "reuse", "reuseCode", "reuseAliases",
        "copyConstructFrom", "copyReadCondFrom", "copyValidCondFrom")
MSGX = ("construct", "readCond", "validCond")
SENDERS = ("both", "client", "server")


class Message(FieldsHolder):
    okind = "message"
    STATE = {"name": "", "dname": "", "desc": "", "order": 0, "platforms": (), "sender": 0, "custom": False, "fail": False, "copycode": "", "vminlen": -1, "construct": None, "readcond": None, "validcond": None}
    strprop, boolprop, ovprop = Field.strprop, Field.boolprop, Field.ovprop

    def __init__(self, node, proto, parent):
        super().__init__(node, proto, parent)
        for k, v in self.STATE.items():
            setattr(self, k, v)
        self.id, self.fields, self.aliases, self.copied = 0, [], [], None
        self.ov = {o: 0 for o in OVPROPS if o != "value"}

    def parse(self):
        self.props = p = Props(self.node, (MSGP, True), (MSGX, False))
        r = self.props.first("reuse")
        o = self.reuse_holder("messages")
        if o is not None:
            for k in self.STATE:
                if k != "copycode":
                    setattr(self, k, getattr(o, k))
        self.strprop("name", must=not self.name)
        if not valid_name(self.name):
            raise Reject("message name")
        self.strprop("displayName", "dname", deref=True)
        self.strprop("description", "desc", deref=True)
        i = p.one("id", True)
        v = None
        if valid_ref(i):
            try:
                v = self.proto.enum_value(i)
            except Reject:
                pass
        self.id = v if v is not None else to_uint(i)
        i = p.one("order")
        if i is not None:
            self.order = to_unsigned(i)
        for n in ("sinceVersion", "deprecated", "removed"):
            p.one(n)
        self.since, self.depr = self.versions(p, 0, NOTYET)
        rem = p.first("removed")
        self.removed = to_bool(rem) if rem is not None else False
        if self.removed and self.depr == NOTYET:
            self.warn("removed")
        self.upd_platforms()
        self.boolprop("customizable", "custom")
        s = p.one("sender")
        if s is not None:
            if s.lower() not in SENDERS:
                raise Reject("sender")
            self.sender = SENDERS.index(s.lower())
        v = p.one("validateMinLength")
        if v is not None:
            if not self.sup(4):
                self.warn("validateMinLength")
            else:
                self.vminlen = to_unsigned(v)
        self.boolprop("failOnInvalid", "fail")
        if self.fail and not self.sup(6):
            self.warn("failOnInvalid")
            self.fail = False
        if p.one("copyFieldsFrom") is not None:
            self.copy_fields("messages")
            self.fields = [f for f in self.fields if not (f.removed and f.depr <= self.since)]
            for f in self.fields:
                f.since = max(f.since, self.since)
            verify_all(self.fields)
        self.replace_fields()
        self.add_fields()
        if self.vminlen >= 0 and self.vminlen != self.minlen():
            raise Reject("validateMinLength")
        self.copy_aliases()
        read_aliases(self, self.aliases, self.fields)
        for n in self.ov:
            self.ovprop(n)
        c = p.one("copyCodeFrom")
        if c is not None:
            if not self.sup(5):
                self.warn("copyCodeFrom")
            else:
                if self.proto.find("messages", c) is None:
                    raise Reject("copyCodeFrom")
                self.copycode = c
        self.conds()
        self.extras(MSGP + MSGX, MSGP + MSGX + tuple(FIELD_KINDS) + ("fields", "alias", "replace"))
        return self

    def upd_platforms(self):
        s = self.props.one("platforms")
        if s is None:
            return
        if s[:1] not in ("+", "-") or len(s) < 2:
            raise Reject("platforms")
        l = s[1:].split(",")
        if l[-1] == "" and len(l) > 1:
            l.pop()     # a trailing comma ends the list
        l = [x.strip(WS) for x in l]
        if any(x not in self.proto.cur.platforms for x in l):
            raise Reject("platforms " + s)
        r = sorted(set(l)) if s[0] == "+" else sorted(set(self.proto.cur.platforms) - set(l))
        if not r:
            raise Reject("no platforms")
        self.platforms = tuple(r)

    def replace_fields(self):
        rn = self.node.elems(("replace",))
        if len(rn) > 1:
            raise Reject("replace twice")
        if not rn:
            return
        if not self.sup(5):
            return self.warn("replace")
        kids = rn[0].elems()
        if any(k.name not in FIELD_KINDS for k in kids):
            raise Reject("replace member type")
        ms = [make_field(k, self.proto, self).parse() for k in kids]
        for f in ms:
            for i, c in enumerate(self.fields):
                if c.name == f.name:
                    self.fields[i] = f
                    break
            else:
                raise Reject("no field to replace " + f.name)
        verify_all(self.fields)

    def conds(self):
        p = self.props

        def src(prop, attr, fields, bundle=False):
            r = p.one(prop)
            if r is None:
                return
            if not self.sup(7):
                return self.warn(prop)
            o = self.proto.find("messages", r) if r else None
            if o is None and bundle:
                o = self.proto.find("fields", r) if r else None
                if o is not None and o.kind != "bundle":
                    o = None
            if o is None or getattr(o, attr) is None:
                raise Reject(prop)
            getattr(o, attr).verify(fields, self.proto)
            setattr(self, attr, getattr(o, attr))
        src("copyConstructFrom", "construct", [])
        src("copyReadCondFrom", "readcond", [])
        src("copyValidCondFrom", "validcond", self.fields, True)
        for prop, attr, fields in (("construct", "construct", []), ("readCond", "readcond", []), ("validCond", "validcond", self.fields)):
            c = read_conds(self, prop, lambda: self.sup(6), lambda c: c.verify(fields, self.proto))
            if c is not None:
                if prop == "construct" and not c.only_assign():
                    raise Reject("construct")
                setattr(self, attr, c)
        for prop, attr in (("constructAsReadCond", "readcond"), ("constructAsValidCond", "validcond")):
            v = p.one(prop)
            if v is None:
                continue
            if not self.sup(6):
                self.warn(prop)
            elif to_bool(v):
                if self.construct is None:
                    raise Reject(prop)
                setattr(self, attr, self.construct)
        if self.validcond is not None:
            self.validcond.verify(self.fields, self.proto)

    def minlen(self): return sum(f.minlen() for f in self.fields if f.since <= self.since)

    def maxlen(self):
        r = 0
        for f in self.fields:
            r = sadd(r, f.maxlen())
        return r

    def dump(self):
        c = lambda x: x.dump() if x else None
        d = {"name": self.name, "dname": self.dname, "desc": self.desc, "id": self.id, "order": self.order, "minlen": self.minlen(), "maxlen": self.maxlen(), "since": self.since, "depr": self.depr, "removed": self.removed,
             "ext": self.ext(), "ext0": self.ext(False), "custom": self.custom, "fail": self.fail, "sender": self.sender, "copycode": self.copycode, "construct": c(self.construct), "readcond": c(self.readcond),
             "validcond": c(self.validcond), "xattr": [list(a) for a in self.xattr], "xelem": self.xelem, "platforms": list(self.platforms), "fields": [f.dump() for f in self.fields], "aliases": [a.dump() for a in self.aliases]}
        for o in self.ov:
            d["ov_" + o] = self.ov[o]
        return d


class Interface(FieldsHolder):
    okind = "interface"
    P = ("name", "description", "copyFieldsFrom", "copyFieldsAliases", "reuse", "reuseCode", "reuseAliases")
    strprop = Field.strprop

    def __init__(self, node, proto, parent):
        super().__init__(node, proto, parent)
        self.name = self.desc = self.copycode = ""
        self.fields, self.aliases, self.copied = [], [], None

    def parse(self):
        self.props = Props(self.node, (self.P, True))
        o = self.reuse_holder("interfaces")
        if o is not None:
            self.name, self.desc = o.name, o.desc
        self.strprop("name", must=not self.name)
        if not valid_name(self.name):
            raise Reject("interface name")
        self.strprop("description", "desc")
        self.copy_fields("interfaces")
        self.add_fields()
        self.copy_aliases()
        read_aliases(self, self.aliases, self.fields)
        self.extras(self.P, self.P + tuple(FIELD_KINDS) + ("fields", "alias"))
        return self

    def dump(self):
        return {"name": self.name, "desc": self.desc, "ext": self.ext(), "ext0": self.ext(False), "copycode": self.copycode, "xattr": [list(a) for a in self.xattr], "xelem": self.xelem,
                "fields": [f.dump() for f in self.fields], "aliases": [a.dump() for a in self.aliases]}


# ---------------------------------------------------------------- frames
LAYERS = ("custom", "sync", "size", "id", "value", "payload", "checksum")
LAYERP = {"sync": (("seekField", "from", "verifyBeforeRead"), ("escField",)), "value": (("interfaces", "interfaceFieldName", "pseudo"), ()), "checksum": (("alg", "algName", "from", "until", "verifyBeforeRead"), ()),
          "custom": (("idReplacement", "semanticLayerType", "checksumFrom", "checksumUntil"), ())}
ALGS = {"custom": 0, "sum": 1, "crc-ccitt": 2, "crc_ccitt": 2, "crc-16": 3, "crc_16": 3, "crc-32": 4, "crc_32": 4, "xor": 5}


class Layer(Obj):
    okind = "layer"
    strprop = Field.strprop

    def __init__(self, node, proto, parent):
        super().__init__(node, proto, parent)
        self.kind = node.name
        self.name = self.dname = self.desc = ""
        self.own = self.extf = None
        self.seek = self.verify_first = self.after = self.vpseudo = False
        self.esc, self.from_, self.until, self.semtype, self.alg, self.algname, self.interfaces, self.fieldname = None, "", "", "custom", 0, "", [], ""

    def fld(self): return self.own or self.extf

    def parse(self):
        xp, xposs = LAYERP.get(self.kind, ((), ()))
        self.props = p = Props(self.node, (("name", "description", "displayName"), True), (("field",), False), (xp, True), (xposs, False))
        self.strprop("name", must=True)
        if not valid_name(self.name):
            raise Reject("layer name")
        self.strprop("displayName", "dname")
        if self.dname and not self.sup(7):
            self.warn("displayName")
            self.dname = ""
        self.strprop("description", "desc")
        s = p.one("field")
        if s is not None:
            self.extf = self.proto.find("fields", s) if s else None
            if self.extf is None:
                raise Reject("layer field")
        f = field_child(self, "field", s is not None)
        if f is not None:
            self.own, self.extf = f, None
        if (self.fld() is None) != (self.kind == "payload"):
            raise Reject("layer field")
        getattr(self, "parse_" + self.kind, lambda p: None)(p)
        props = ("name", "description", "displayName", "field") + xp + xposs
        self.extras(props, props + tuple(FIELD_KINDS))
        return self

    def flag(self, name, feature=0):
        v = self.props.one(name)
        if v is None:
            return False
        if not self.sup(feature):
            self.warn(name)
            return False
        return to_bool(v)

    def parse_sync(self, p):
        self.seek = self.flag("seekField", 8)
        r = p.one("escField")
        kids = self.node.elems(("escField",))
        e = None
        if r is not None:
            e = self.proto.find("fields", r) if r else None
            if e is None:
                raise Reject("escField")
        kids = [k for k in kids if k.elems() or r is None]
        if kids:
            if len(kids) > 1 or e is not None or len(kids[0].elems()) != 1:
                raise Reject("escField")
            e = make_field(kids[0].elems()[0], self.proto, self).parse()
        if e is not None:
            if not self.seek:
                raise Reject("escField without seekField")
        self.esc = e
        if p.one("verifyBeforeRead") is not None and self.seek:
            raise Reject("verifyBeforeRead with seekField")
        self.verify_first = self.flag("verifyBeforeRead", 8)
        self.strprop("from", "from_")
        if self.from_:
            if not self.seek and not self.verify_first:
                raise Reject("from")
            if not self.sup(8):
                self.warn("from")
                self.from_ = ""
            elif not self.seek and not self.verify_first:
                raise Reject("from")

    def parse_value(self, p):
        s = p.one("interfaces")
        if s is None:
            self.interfaces = [i for n in sorted(self.proto.cur.namespaces) for _, i in sorted(self.proto.cur.namespaces[n].interfaces.items(), key=lambda x: x[0][:1].lower() + x[0][1:])]
        else:
            for r in s.split(","):
                r = r.strip(WS)
                i = self.proto.find("interfaces", r) if r else None
                if i is None:
                    raise Reject("value interfaces")
                self.interfaces.append(i)
        if not self.interfaces:
            raise Reject("no interfaces")
        self.fieldname = p.one("interfaceFieldName", True)
        idx = {self.find_idx(i) for i in self.interfaces}
        if len(idx) != 1:
            raise Reject("interface field index")
        self.idx = idx.pop()
        self.vpseudo = self.flag("pseudo")

    def find_idx(self, i):
        for n, f in enumerate(i.fields):
            if f.name == self.fieldname:
                return n
        raise Reject("interface field")

    def parse_checksum(self, p):
        a = p.one("alg", True).lower()
        if a not in ALGS:
            raise Reject("alg")
        self.alg = ALGS[a]
        if a == "custom":
            self.algname = p.one("algName", True)
            if not valid_name(self.algname):
                raise Reject("algName")
        self.strprop("from", "from_")
        self.strprop("until")
        self.verify_first = self.flag("verifyBeforeRead")

    def parse_custom(self, p):
        if self.flag("idReplacement"):
            self.semtype = "id"
        s = p.one("semanticLayerType")
        if s is not None:
            if not self.sup(5):
                self.warn("semanticLayerType")
            elif s:
                if self.semtype != "custom" or s not in LAYERS:
                    raise Reject("semanticLayerType")
                self.semtype = s
        for prop, attr in (("checksumFrom", "from_"), ("checksumUntil", "until")):
            s = p.one(prop)
            if s is not None:
                if not self.sup(5) or self.semtype != "checksum":
                    self.warn(prop)
                else:
                    setattr(self, attr, s)

    def verify(self, layers):
        k = self.kind
        idx = layers.index(self)
        names = [l.name for l in layers]
        pay = [l.kind for l in layers].index("payload")

        def at(n):
            if n not in names:
                raise Reject("no layer " + n)
            return names.index(n)
        if k in ("payload", "id", "size") and [l.kind for l in layers].count(k) > 1:
            raise Reject("several " + k)
        if k in ("id", "size", "value") and idx >= pay:
            raise Reject(k + " after payload")
        if k == "sync" and self.sup(8):
            self.after = pay < idx
            if not self.after:
                if self.from_:
                    raise Reject("from of prefix sync")
                return
            if self.seek and not self.from_:
                raise Reject("seekField of suffix without from")
            if self.from_:
                f = at(self.from_)
                if f > pay:
                    raise Reject("from after payload")
                self.suffix_order(layers, pay, idx, f, at)
        if k == "checksum" or (k == "custom" and self.semtype == "checksum"):
            if not self.from_ and not self.until:
                raise Reject("checksum without from/until")
            if self.from_ and self.until:
                raise Reject("checksum with from and until")
            if self.from_:
                f = at(self.from_)
                if idx <= f:
                    raise Reject("from after checksum")
                if k == "checksum":
                    self.suffix_order(layers, pay, idx, f, at)
            if self.until and at(self.until) <= idx:
                raise Reject("until before checksum")

    def suffix_order(self, layers, pay, idx, f, at):
        for l in layers[pay + 1:idx]:
            if l.kind in ("sync", "checksum") and l.from_ and l.from_ in [x.name for x in layers] and at(l.from_) < f:
                raise Reject("suffix order")

    def dump(self):
        d = {"kind": self.kind, "name": self.name, "dname": self.dname, "desc": self.desc, "xattr": [list(a) for a in self.xattr], "xelem": self.xelem, "hasfield": self.fld() is not None}
        if self.fld() is not None:
            d["field"] = self.fld().dump()
        k = self.kind
        if k == "custom":
            d.update(semtype=self.semtype, **{"from": self.from_, "until": self.until})
        elif k == "sync":
            d.update(seek=self.seek, hasesc=self.esc is not None, verify=self.verify_first, after=self.after, **{"from": self.from_})
            if self.esc is not None:
                d["esc"] = self.esc.dump()
        elif k == "checksum":
            d.update(alg=self.alg, algname=self.algname, until=self.until, verify=self.verify_first, **{"from": self.from_})
        elif k == "value":
            d.update(interfaces=[i.ext() for i in self.interfaces], fieldname=self.fieldname, fieldidx=self.idx, vpseudo=self.vpseudo)
        return d


class Frame(Obj):
    okind = "frame"
    P = ("name", "description", "displayName")
    strprop = Field.strprop

    def parse(self):
        self.dname = self.desc = ""
        self.props = Props(self.node, (self.P, True))
        self.strprop("name", must=True)
        if not valid_name(self.name):
            raise Reject("frame name")
        self.strprop("displayName", "dname")
        if self.dname and not self.sup(7):
            self.warn("displayName")
            self.dname = ""
        self.strprop("description", "desc")
        nodes, direct = self.node.elems(("layers",)), self.node.elems(LAYERS)
        if len(nodes) > 1 or bool(nodes) == bool(direct):
            raise Reject("layers")
        if direct and len(self.node.elems()) != len(direct):
            raise Reject("layers mixed")
        lst = nodes[0].elems() if nodes else direct
        if any(n.name not in LAYERS for n in lst):
            raise Reject("layer kind")
        self.layers = []
        for n in lst:
            l = Layer(n, self.proto, self).parse()
            if l.name in [x.name for x in self.layers]:
                raise Reject("layer name")
            self.layers.append(l)
        if "payload" not in [l.kind for l in self.layers]:
            raise Reject("no payload")
        for l in self.layers:
            l.verify(self.layers)
        self.extras(self.P, self.P + LAYERS + ("layers",))
        return self

    def dump(self):
        return {"name": self.name, "dname": self.dname, "desc": self.desc, "ext": self.ext(), "ext0": self.ext(False), "xattr": [list(a) for a in self.xattr], "xelem": self.xelem, "layers": [l.dump() for l in self.layers]}


# ---------------------------------------------------------------- namespaces, schema, protocol
NSCHILD = ("fields", "messages", "message", "frames", "frame", "ns", "interfaces", "interface")


class Namespace(Obj):
    okind = "ns"
    P = ("name", "displayName", "description")

    def __init__(self, node, proto, parent):
        super().__init__(node, proto, parent)
        self.name = self.dname = self.desc = ""
        self.namespaces, self.fields, self.messages, self.interfaces, self.frames = {}, {}, {}, {}, {}

    def parse_props(self):
        p = Props(self.node, (self.P, True))
        self.name, self.desc, self.dname = (p.first(k) or "" for k in ("name", "description", "displayName"))
        if self.dname and not self.sup(7):
            self.warn("displayName")
            self.dname = ""
        self.extras(self.P, self.P + NSCHILD)
        if not valid_name(self.name):
            raise Reject("ns name")
        return self

    def ext(self, schema=True):
        p = self.parent.ext(schema) if self.parent.okind == "ns" else "@" + self.parent.name if schema else ""
        return p + "." + self.name if p and self.name else p or self.name

    def children(self, real):
        for c in self.node.elems(NSCHILD):
            real.child(c)

    def child(self, n):
        k = n.name
        if k == "ns":
            return add_namespace(self, self.namespaces, n)
        if k == "fields":
            for c in n.elems():
                f = make_field(c, self.proto, self).parse()
                self.add(self.fields, f)
            return
        cls, store = {"message": (Message, self.messages), "interface": (Interface, self.interfaces), "frame": (Frame, self.frames)}[k.rstrip("s")]
        lst = n.elems() if k.endswith("s") else [n]
        for c in lst:
            if c.name != k.rstrip("s"):
                raise Reject("unexpected " + c.name)
            self.add(store, cls(c, self.proto, self).parse())

    def add(self, store, o):
        if lookup(store, o.name) is not None:
            raise Reject("duplicate " + o.name)
        store[o.name] = o

    def value(self, how, ref):
        a, dot, b = ref.partition(".")
        if dot and a in self.namespaces:
            return self.namespaces[a].value(how, b)
        f = lookup(self.fields, a)
        if f is None:
            raise Reject("no field " + a)
        return f.value(how, b)

    def all_interfaces(self):
        r = []
        for _, n in sorted(self.namespaces.items()):
            r += n.all_interfaces()
        return r + [i for _, i in sorted(self.interfaces.items())]

    def all_messages(self):
        r = [m for _, m in sorted(self.messages.items())]
        for _, n in sorted(self.namespaces.items()):
            r += n.all_messages()
        return r

    def dump(self):
        d = {"name": self.name, "dname": self.dname, "desc": self.desc, "ext": self.ext(), "ext0": self.ext(False), "hasmsgs": bool(self.messages), "xattr": [list(a) for a in self.xattr], "xelem": self.xelem}
        for k in ("namespaces", "fields", "messages", "interfaces", "frames"):
            d[k] = [o.dump() for _, o in sorted(getattr(self, k).items())]
        return d


def lookup(store, name):
    """objects of a namespace are told apart regardless of the case of the first letter"""
    for n in (name, name[:1].lower() + name[1:], name[:1].upper() + name[1:]):
        if n in store:
            return store[n]
    return None


def add_namespace(parent, store, node):
    n = Namespace(node, parent.proto, parent).parse_props()
    if n.name not in store:
        store[n.name] = real = n
    else:
        real = store[n.name]
        if n.desc and n.desc != real.desc:
            if real.desc:
                n.warn("description")
            else:
                real.desc = n.desc
        have = dict(real.xattr)
        for k, v in n.xattr:
            if k not in have:
                have[k] = v
            elif have[k] != v:
                n.warn("attribute " + k)
        real.xattr = sorted(have.items())
        real.xelem = real.xelem + n.xelem
    n.children(real)


class Schema(Obj):
    okind = "schema"
    P = ("name", "displayName", "id", "version", "dslVersion", "endian", "description", "nonUniqueMsgIdAllowed")

    def process(self):
        self.props = p = Props(self.node, (self.P, True))
        self.name, self.desc = p.first("name") or "", p.first("description") or ""
        self.id, self.version, self.dsl = (to_unsigned(p.first(k)) if p.first(k) is not None else 0 for k in ("id", "version", "dslVersion"))
        self.endian = to_endian(p.first("endian") or "", 0)
        v = p.first("nonUniqueMsgIdAllowed")
        self.nonuniq = to_bool(v) if v is not None else False
        self.dname = p.first("displayName") or ""
        if self.dname and 0 < self.dsl < 7:
            self.warn("displayName")
            self.dname = ""
        self.extras(self.P, self.P + NSCHILD + ("platforms", "platform"))
        if self.name and not valid_name(self.name):
            raise Reject("schema name")
        self.platforms, self.namespaces = [], {}
        return self

    def ns_of(self, path):
        if not path:
            return self.namespaces.get("")
        m, n = self.namespaces, None
        for p in path.split("."):
            n = m.get(p)
            if n is None:
                return None
            m = n.namespaces
        return n

    def value(self, how, ref):
        a, dot, b = ref.partition(".")
        if dot and a in self.namespaces:
            return self.namespaces[a].value(how, b)
        if "" not in self.namespaces:
            raise Reject("no field " + ref)
        return self.namespaces[""].value(how, ref)

    def all_messages(self):
        return sorted((m for _, n in sorted(self.namespaces.items()) for _, m in sorted(n.messages.items())), key=lambda m: (m.id, m.order))

    def check_messages(self):
        """messages are told apart by id (and by order where repeated ids are allowed) within every top level namespace"""
        for _, n in sorted(self.namespaces.items()):
            seen = set()
            for m in [m for _, m in sorted(n.messages.items())] + [m for _, c in sorted(n.namespaces.items()) for _, m in sorted(c.messages.items())]:
                k = (m.id, m.order) if self.nonuniq else m.id
                if k in seen:
                    raise Reject("message id")
                seen.add(k)

    def dump(self):
        return {"name": self.name, "dname": self.dname, "desc": self.desc, "id": self.id, "version": self.version, "dsl": self.dsl, "endian": self.endian, "nonuniqid": self.nonuniq, "ext": "@" + self.name,
                "xattr": [list(a) for a in self.xattr], "xelem": self.xelem, "platforms": list(self.platforms), "allmsgs": [m.ext() for m in self.all_messages()],
                "namespaces": [n.dump() for _, n in sorted(self.namespaces.items())]}


class Protocol:
    def __init__(self, multi=False, prefixes=()):
        self.multi, self.prefixes, self.warnings, self.schemas, self.cur = multi, list(prefixes), [], [], None

    def warn(self, msg): self.warnings.append(msg)
    def sup(self, v): return self.cur.dsl == 0 or self.cur.dsl >= v
    def deprecated(self, v): return self.cur.dsl != 0 and self.cur.dsl >= v

    def load(self, docs):
        """docs: list of file names or bytes"""
        try:
            roots = [xmlt.parse_bytes(d) if isinstance(d, bytes) else xmlt.parse_file(d) for d in docs]
        except (xmlt.XmlError, OSError) as e:
            raise Reject(str(e))
        if not roots:
            raise Reject("nothing to parse")
        for r in roots:
            self.doc(r)
        for s in self.schemas:
            s.check_messages()
        return self

    def doc(self, root):
        if root.name != "schema":
            raise Reject("root element")
        prev = self.cur
        s = Schema(root, self)
        s.proto = self
        self.cur = s if prev is None else prev
        s.process()
        if not s.name:
            if prev is None:
                raise Reject("no schema name")
            s.name = prev.name
        old = [x for x in self.schemas if x.name == s.name]
        if not old:
            if self.schemas and not (self.sup(5) and self.multi):
                raise Reject("several schemas")
            self.schemas.append(s)
            self.cur = s
        else:
            self.cur = o = old[0]
            for k in s.props.m:
                if s.props.m[k] != o.props.m.get(k):
                    raise Reject("schema property " + k)
            have = dict(o.xattr)
            for k, v in s.xattr:
                if have.setdefault(k, v) != v:
                    self.warn("attribute " + k)
            o.xattr, o.xelem = sorted(have.items()), o.xelem + s.xelem
        self.platforms(root)
        cur = self.cur
        for c in root.elems(NSCHILD):
            if c.name == "ns":
                add_namespace(cur, cur.namespaces, c)
            else:
                if "" not in cur.namespaces:
                    cur.namespaces[""] = Namespace(None, self, cur)
                cur.namespaces[""].child(c)

    def platforms(self, root):
        lst = []
        for p in root.elems(("platforms",)):
            if any(c.name != "platform" for c in p.elems()):
                raise Reject("platforms")
            lst += p.elems()
        for n in lst + root.elems(("platform",)):
            name = Props(n, (("name",), True)).first("name")
            if name is None or any(c in name for c in "+-,"):
                raise Reject("platform name")
            if name in self.cur.platforms:
                self.warn("platform")
            else:
                self.cur.platforms = sorted(self.cur.platforms + [name])

    def resolve(self, ref):
        """(schema, local reference)"""
        if ref[:1] != "@":
            return self.cur, ref
        a, dot, b = ref[1:].partition(".")
        s = [x for x in self.schemas if x.name == a]
        if not dot or not s or not b or self.schemas.index(s[0]) > self.schemas.index(self.cur):
            return None, b
        return s[0], b

    def find(self, kind, ref):
        if not ref or not valid_ref(ref):
            return None
        s, r = self.resolve(ref)
        if s is None:
            return None
        path, _, name = r.rpartition(".")
        ns = s.ns_of(path)
        return lookup(getattr(ns, kind), name) if ns is not None else None

    def value(self, how, ref):
        if not valid_ref(ref):
            raise Reject("bad reference " + ref)
        s, r = self.resolve(ref)
        if s is None:
            raise Reject("bad reference " + ref)
        return s.value(how, r)

    def enum_value(self, ref):
        path, dot, name = ref.rpartition(".")
        f = self.find("fields", path) if dot and valid_ref(ref) else None
        if f is None or f.kind != "enum" or name not in f.values:
            raise Reject("no enum value " + ref)
        return f.values[name][0]

    def deref_str(self, s):
        if not self.sup(2):
            return s
        if s[:1] == "^":
            return self.value("str", s[1:])
        i = s.find("^")
        return s[1:] if i > 0 and set(s[:i]) == {"\\"} else s

    def iface_refs(self, s):
        return [r for _, n in sorted(self.cur.namespaces.items()) for i in n.all_interfaces() for r in [sibling_ref(i.fields, s)] if r is not None]

    def dump(self): return [s.dump() for s in self.schemas]
