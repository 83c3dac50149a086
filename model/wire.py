"""Reference codec: what a message of a given schema looks like on the wire.

Works on the objects of model.cdsl; knows nothing about the generated code.  Every field of a message becomes a node holding a value; a node can be read, written, measured, checked for
validity, refreshed and told the version of the remote side."""
import math
import struct
from model import cdsl

OK, NED, PROTO, INV, OVF = 0, 1, 2, 3, 4   # comms::ErrorStatus: see STATUS for the numbers printed by the harness
MAXLEN = 0xffffffff
NEVER = 0xffffffff
SIZES = (1, 1, 2, 2, 4, 4, 8, 8, 8, 8)


class Unspecified(Exception):
    """The description does not say what happens here; nothing is compared."""


class Ctx:
    def __init__(self, verdep=False, schema_ver=0, min_remote=0, iface=None):
        self.verdep, self.schema_ver, self.min_remote, self.iface = verdep, schema_ver, min_remote, iface or {}

    def exists(self, since, depr, removed): return since <= self.schema_ver and not (removed and depr <= self.min_remote)
    def optional(self, since, depr, removed): return self.min_remote < since or (removed and depr < NEVER)


def sext(v, bits): return v - (1 << bits) if v >> (bits - 1) & 1 else v
def wrap(v, bits, signed):
    v &= (1 << bits) - 1
    return sext(v, bits) if signed else v


class Node:
    fixedval = False
    def __init__(self, f, ctx, owner=None):
        """f: the field as declared where it is used (possibly a ref); self.f: the field that carries the properties"""
        self.decl, self.f, self.ctx = f, f, ctx
        while self.f.kind == "ref":
            self.f = self.f.field
        self.name, self.dname = f.name, f.dname
        self.ver = None
        self.init()

    def init(self): pass
    @property
    def vcv(self): return self.ctx.verdep and getattr(self.f, "vcv", False)

    def read(self, b, pos, end):
        st, pos = self.rd(b, pos, end)
        if st == OK and self.f.fail and not self.valid():
            return INV, pos
        return st, pos

    def setver(self, v): self.ver = v
    def verdep(self): return False
    def refresh(self): return False
    def valid(self): return True
    def inrange(self, since, depr):
        if not self.vcv:
            return self.ctx.exists(since, depr, True)
        if not self.ctx.exists(since, depr, False):
            return False
        if not self.ctx.optional(since, depr, True):
            return True
        return since <= self.ver < depr


class Num(Node):
    """integers, enumerations, sets and floating point values"""
    def init(self):
        f = self.f
        self.bits = 0
        d = self.decl
        if d.in_bitfield():
            self.bits = d.bits
        self.big = False
        if f.kind in ("int", "enum", "set"):
            self.signed = f.kind != "set" and cdsl.tsigned(f.type)
            self.var = f.kind != "set" and cdsl.tvar(f.type)
            self.len = f.length
            self.off = getattr(f, "offset", 0)
            self.sx = getattr(f, "signext", True)
            self.avail = f.avail
            if f.kind == "set":
                self.tbits = 8 * (1 if self.len <= 1 else 2 if self.len <= 2 else 4 if self.len <= 4 else 8)
            else:
                self.tbits = 8 * SIZES[f.type]
                if self.var:
                    self.tbits = 8 * (2 if self.len <= 2 else 4 if self.len <= 4 else 8)
        else:
            self.signed, self.var, self.len, self.off, self.sx, self.avail = False, False, (4, 8)[f.type], 0, True, False
            self.tbits = 8 * self.len
        self.endian = f.endian
        self.forced = None
        self.v = self.default()

    def default(self):
        f = self.f
        if f.kind == "set":
            n = self.bits or self.len * 8
            v = (1 << n) - 1 if f.defbit else 0
            for b in f.bitmap.values():
                v = v | 1 << b[0] if b[5] else v & ~(1 << b[0])
            return v & ((1 << n) - 1)
        if f.kind == "float":
            return fbits(f.default, self.len)
        if f.kind == "int" and f.default == 0 and f.sem == 1:
            return wrap(self.ctx.schema_ver, self.tbits, self.signed)
        return wrap(f.default, self.tbits, self.signed)

    # raw serialised bits <-> value
    def from_raw(self, raw, bits):
        if self.f.kind == "float":
            return raw
        if self.signed and self.sx:
            raw = sext(raw, bits)
        return wrap(raw - self.off, self.tbits, self.signed)

    def to_raw(self): return (self.v if self.f.kind == "float" else self.v + self.off)

    def set(self, v):
        if not self.f.fixed:
            self.v = v if self.f.kind == "float" else wrap(v, self.tbits, self.signed)

    def rd(self, b, pos, end):
        if self.f.pseudo:
            return OK, pos
        if self.avail:
            n = min(end - pos, self.len)
            if n <= 0:
                return NED, pos
            self.forced = n
            self.v = self.from_raw(int.from_bytes(b[pos:pos + n], ("little", "big")[self.endian]), 8 * n)
            return OK, pos + n
        if self.var:
            r, n = 0, 0
            while True:
                if pos + n >= end:
                    return NED, pos
                c = b[pos + n]
                n += 1
                r = r << 7 | c & 0x7f if self.endian == 1 else r | (c & 0x7f) << 7 * (n - 1)
                if not c & 0x80:
                    break
                if n >= self.len:
                    return PROTO, pos
            # what does not fit the widest supported value is lost
            r &= (1 << 64) - 1
            self.v = self.from_raw(r, min(7 * n, 64))
            return OK, pos + n
        if end - pos < self.len:
            return NED, pos
        self.v = self.from_raw(int.from_bytes(b[pos:pos + self.len], ("little", "big")[self.endian]), 8 * self.len)
        return OK, pos + self.len

    def varlen(self):
        s = self.to_raw() & ((1 << 64) - 1)
        n = 1
        while n < self.len and 7 * n < 64:
            cut = s & ((1 << 7 * n) - 1)
            if self.signed:
                cut = sext(cut, 7 * n) & ((1 << 64) - 1)
            if cut == s:
                break
            n += 1
        return n

    def length(self):
        if self.f.pseudo:
            return 0
        if self.avail:
            return self.len if self.forced is None else self.forced
        return self.varlen() if self.var else self.len

    def write(self):
        if self.f.pseudo:
            return b""
        n = self.length()
        if self.var:
            s = self.to_raw() & ((1 << 64) - 1)
            g = [s >> 7 * i & 0x7f for i in range(n)]
            if self.endian == 1:
                g.reverse()
            return bytes(x | (0x80 if i + 1 < n else 0) for i, x in enumerate(g))
        return (self.to_raw() & ((1 << 8 * n) - 1)).to_bytes(n, ("little", "big")[self.endian])

    def verdep(self):
        if not self.vcv or self.f.kind == "float" and False:
            return False
        return any(self.f.since < s or d < self.f.depr for s, d in self.vspans())

    def vsince(self, v): return v[1] if v[1] > self.f.since else 0   # values may appear together with the field itself

    def vspans(self):
        f = self.f
        if f.kind in ("int", "float"):
            return [(r[2], r[3]) for r in f.ranges]
        if f.kind == "enum":
            return [(v[1], v[2]) for v in f.values.values() if self.ctx.exists(self.vsince(v), v[2], False)]
        return [(b[1], b[2]) for b in f.bitmap.values()]

    def valid(self):
        f = self.f
        if f.kind == "int":
            rs = [r for r in f.ranges if self.ctx.exists(r[2], r[3], not self.vcv)]
            return not rs or any(self.uv(r[0]) <= self.v <= self.uv(r[1]) and self.inrange(r[2], r[3]) for r in rs)
        if f.kind == "enum":
            return any(self.uv(v[0]) == self.v and self.inrange(self.vsince(v), v[2]) for v in f.values.values())
        if f.kind == "float":
            rs = [r for r in f.ranges if self.ctx.exists(r[2], r[3], not self.vcv)]
            v = struct.unpack("<f" if self.len == 4 else "<d", self.v.to_bytes(self.len, "little"))[0]
            def hit(r):
                if math.isnan(r[0]):
                    return math.isnan(v)
                return not math.isnan(v) and ftrunc(r[0], self.len) <= v <= ftrunc(r[1], self.len)
            return not rs or any(hit(r) and self.inrange(r[2], r[3]) for r in rs)
        n = self.bits or self.len * 8
        for i in range(n):
            bs = [b for b in f.bitmap.values() if b[0] == i]
            val = self.v >> i & 1
            live = [b for b in bs if not b[6] and (self.inrange(b[1], b[2]) if self.vcv else True)]
            if live:
                continue
            want = bs[0][7] if bs else f.resbit
            if val != int(want):
                return False
        return True

    def uv(self, x): return wrap(x, 64, False) if not self.signed else x

    def refresh(self):
        f = self.f
        if f.kind == "int" and f.fail and not f.fixed and f.ranges and not self.valid():
            rs = [r for r in f.ranges if self.ctx.exists(r[2], r[3], not self.vcv) and
                  not (self.vcv and self.ctx.optional(r[2], r[3], True))]
            self.set(self.uv((rs or f.ranges)[0][0]))
            return True
        if f.kind == "enum" and f.fail and not f.fixed and not self.valid():
            raise Unspecified()
        return False

    def minlen(self): return 0 if self.f.pseudo else 1 if self.var or self.avail else self.len
    def maxlen(self): return 0 if self.f.pseudo else self.len

    def dump(self): return "%d" % self.v if self.f.kind != "float" else "x%0*x" % (2 * self.len, self.v)


def fval(v, n): return struct.unpack("<f" if n == 4 else "<d", v.to_bytes(n, "little"))[0]


def fbits(v, n):
    return int.from_bytes(struct.pack("<f" if n == 4 else "<d", v), "little")


def ftrunc(v, n):
    if n == 8 or math.isinf(v):
        return v
    return struct.unpack("<f", struct.pack("<f", v))[0]


class Bitfield(Node):
    def init(self):
        self.m = [make(x, self.ctx) for x in self.f.members]
        self.len = sum(x.bits for x in self.m) // 8

    def rd(self, b, pos, end):
        if end - pos < self.len:
            return NED, pos
        raw = int.from_bytes(b[pos:pos + self.len], ("little", "big")[self.f.endian])
        st = OK
        for m in self.m:
            m.v = m.from_raw(raw & ((1 << m.bits) - 1), m.bits)
            raw >>= m.bits
            if m.f.fail and not m.valid():
                return INV, pos
        return st, pos + self.len

    def write(self):
        raw, sh = 0, 0
        for m in self.m:
            raw |= (m.to_raw() & ((1 << m.bits) - 1)) << sh
            sh += m.bits
        return raw.to_bytes(self.len, ("little", "big")[self.f.endian])

    def setver(self, v):
        self.ver = v
        for m in self.m:
            m.setver(v)

    def verdep(self): return any(m.verdep() for m in self.m)
    def valid(self): return all(m.valid() for m in self.m) and (self.f.validcond is None or cond(self.f.validcond, self.m, self.ctx))
    def refresh(self): return any([m.refresh() for m in self.m])
    def length(self): return self.len
    minlen = maxlen = lambda self: self.len
    def dump(self): return "{" + ",".join(m.dump() for m in self.m) + "}"


class Group:
    """members read one after another: what bundles and messages share"""
    def mk(self, fields, ctx, psince):
        self.m = [wrapver(make(x, ctx), x, ctx, psince) for x in fields]

    def prepare(self, m):
        o = m.inner() if m else None
        if o is None:
            return
        if isinstance(o, Optional) and o.f.cond is not None:
            self.upd_cond(o)
        if isinstance(o, Seq):
            for attr, path in o.det().items():
                v = self.detached(path)
                if v is not None:
                    setattr(o, attr, v)

    def detached(self, path):
        n = resolve(self.m, path)
        return None if n is None else as_size(n)

    def upd_cond(self, o):
        mode = "E" if cond(o.f.cond, self.m, self.ctx) else "M"
        if o.mode == mode:
            return False
        o.mode = mode
        return True

    def read_members(self, b, pos, end, frm=0, to=None):
        for m in self.m[frm:to]:
            self.prepare(m)
            st, pos = m.read(b, pos, end)
            if st != OK:
                return st, pos
        return OK, pos

    def refresh_members(self):
        r = False
        for m in self.m:
            o = m.inner()
            if isinstance(o, Optional) and o.f.cond is not None:
                r = self.upd_cond(o) or r
            elif isinstance(o, Seq):
                for attr, path in o.det().items():
                    n = resolve(self.m, path)
                    if n is None:
                        raise Unspecified()
                    real = o.det_real(attr)
                    if as_size(n) == real:
                        continue
                    leaf_set(n, real)
                    if as_size(n) != real:
                        raise Unspecified()
                    r = True
        return r


class Bundle(Node, Group):
    def init(self):
        self.mk(self.f.members, self.ctx, max_since(self.f))
        self.rem = next((i for i, x in enumerate(self.f.members) if x.sem == 3), None)
        self.sync()

    def sync(self):
        if self.rem is not None:
            leaf_set(self.m[self.rem], self.restlen())

    def restlen(self): return sum(m.length() for m in self.m[self.rem + 1:])

    def rd(self, b, pos, end):
        if self.rem is None:
            return self.read_members(b, pos, end)
        st, pos = self.read_members(b, pos, end, 0, self.rem + 1)
        if st != OK:
            return st, pos
        n = as_size(self.m[self.rem])
        if n is None or n > end - pos:
            return NED, pos
        st, p2 = self.read_members(b, pos, pos + n, self.rem + 1)
        if st != OK:
            return (PROTO if st == NED else st), pos
        return OK, pos + n

    def write(self): return b"".join(m.write() for m in self.m)
    def length(self): return sum(m.length() for m in self.m)
    def setver(self, v):
        self.ver = v
        for m in self.m:
            m.setver(v)
        if self.verdep():
            self.sync()

    def verdep(self): return any(m.verdep() for m in self.m)
    def valid(self): return all(m.valid() for m in self.m) and (self.f.validcond is None or cond(self.f.validcond, self.m, self.ctx))

    def refresh(self):
        r = any([m.refresh() for m in self.m])
        r = self.refresh_members() or r
        if self.rem is not None and as_size(self.m[self.rem]) != self.restlen():
            self.sync()
            r = True
        return r

    def minlen(self): return sum(m.minlen() for m in self.m)
    def maxlen(self): return min(MAXLEN, sum(m.maxlen() for m in self.m))
    def dump(self): return "{" + ",".join(m.dump() for m in self.m) + "}"


class Variant(Node):
    def init(self):
        self.idx, self.cur = None, None
        if self.f.defidx < len(self.f.members):
            self.select(self.f.defidx)

    def mem(self, i): return make(self.f.members[i], self.ctx)

    def select(self, i):
        self.idx, self.cur = i, self.mem(i)
        if self.ver is not None:
            self.cur.setver(self.ver)

    def rd(self, b, pos, end):
        self.idx = self.cur = None
        unspec = False
        for i in range(len(self.f.members)):
            n = self.mem(i)
            if self.ver is not None:
                n.setver(self.ver)
            st, p = n.read(b, pos, end)
            if st == OK:
                if unspec and not (isinstance(n, Bundle) and n.m[0].f.fixed and n.m[0].f.fail):
                    raise Unspecified()
                self.idx, self.cur = i, n
                return OK, p
            if isinstance(n, Bundle) and n.m and n.m[0].f.kind == "int" and n.m[0].read(b, pos, end)[0] == OK:
                unspec = True   # the key matched, the rest did not
        return INV, pos

    def write(self): return self.cur.write() if self.cur else b""
    def length(self): return self.cur.length() if self.cur else 0
    def valid(self): return self.cur.valid() if self.cur else False
    def refresh(self): return self.cur.refresh() if self.cur else False
    def setver(self, v):
        self.ver = v
        if self.cur:
            self.cur.setver(v)

    def verdep(self): return any(self.mem(i).verdep() for i in range(len(self.f.members)))
    def minlen(self): return 0
    def maxlen(self): return max([self.mem(i).maxlen() for i in range(len(self.f.members))] or [0])
    def dump(self): return "v-" if self.cur is None else "v%d(%s)" % (self.idx, self.cur.dump())


class Optional(Node):
    def init(self):
        self.n = make(self.f.fld(), self.ctx)
        self.mode = "TEM"[self.f.mode]

    def rd(self, b, pos, end):
        if self.mode == "M":
            return OK, pos
        if self.mode == "T" and pos == end:
            self.mode = "M"
            return OK, pos
        st, p = self.n.read(b, pos, end)
        if st != OK:
            if self.f.mrf:
                self.mode = "M"
                return OK, pos
            return st, p
        self.mode = "E"
        if self.f.moi and not self.valid():
            self.mode = "M"
            return OK, pos
        return OK, p

    # comparison of sizes: a tentative field takes the space its value needs
    def write(self): return b"" if self.mode == "M" else self.n.write()
    def length(self): return self.n.length() if self.mode == "E" else 0
    def valid(self): return self.mode == "M" or self.n.valid()

    def refresh(self):
        if self.f.moi and self.mode == "E" and not self.valid():
            self.mode = "M"
            return True
        return self.n.refresh() if self.mode == "E" else False

    def setver(self, v):
        self.ver = v
        self.n.setver(v)

    def verdep(self): return self.n.verdep()
    def minlen(self): return 0
    def maxlen(self): return self.n.maxlen()
    def dump(self): return "M" if self.mode == "M" else "%s(%s)" % (self.mode, self.n.dump())


class VerOpt:
    """a member present only in some versions"""
    def __init__(self, n, since, until):
        self.n, self.since, self.until, self.mode, self.f, self.name, self.dname = n, since, until, "T", n.f, n.name, n.dname
        self.decl = n.decl

    def inner(self): return self.n
    def setver(self, v):
        self.n.setver(v)
        self.mode = "E" if self.since <= v < self.until else "M"

    def read(self, b, pos, end):
        if self.mode == "M":
            return OK, pos
        return self.n.read(b, pos, end)

    def write(self): return b"" if self.mode == "M" else self.n.write()
    def length(self): return self.n.length() if self.mode == "E" else 0
    def valid(self): return self.mode == "M" or self.n.valid()
    def refresh(self): return self.n.refresh() if self.mode == "E" else False
    def verdep(self): return True
    def minlen(self): return 0
    def maxlen(self): return self.n.maxlen()
    def dump(self): return "M" if self.mode == "M" else "%s(%s)" % (self.mode, self.n.dump())


Node.inner = lambda self: self


class Seq(Node):
    def det(self): return {}


class Prefixed(Seq):
    def init(self):
        d = self.f.default
        self.v = d.encode("utf-8", "surrogateescape") if isinstance(d, str) else bytes(d)
        self.detlen = None

    def det(self): return {"detlen": self.f.detached} if self.f.detached else {}
    def det_real(self, attr): return len(self.v)

    def pfx(self):
        p = self.f.lp()
        return None if p is None else make(p, self.ctx)

    def rd(self, b, pos, end):
        n = None
        if self.f.length:
            n = self.f.length
        elif self.f.lp() is not None:
            p = self.pfx()
            st, pos = p.read(b, pos, end)
            if st != OK:
                return st, pos
            n = as_size(p)
        elif self.f.zero:
            i = b.find(0, pos, end)
            if i < 0:
                return NED, pos
            self.v = b[pos:i]
            return OK, i + 1
        elif self.f.detached:
            n = self.detlen
        if n is None:
            n = end - pos
        if n > end - pos:
            return NED, pos
        self.v = b[pos:pos + n]
        if self.f.length and self.f.kind == "string":
            self.v = self.v.split(b"\0")[0]
        return OK, pos + n

    def prefixed(self):
        if self.f.length or self.f.lp() is None:
            return None
        p = self.pfx()
        leaf_set(p, len(self.v))
        return p

    def write(self):
        if self.f.length:
            return self.v[:self.f.length].ljust(self.f.length, b"\0")
        p = self.prefixed()
        return (p.write() if p else b"") + self.v + (b"\0" if self.f.zero else b"")

    def length(self):
        if self.f.length:
            return self.f.length
        p = self.prefixed()
        return (p.length() if p else 0) + len(self.v) + int(self.f.zero)

    def valid(self):
        p = self.prefixed()
        if p and not p.valid():
            return False
        if self.f.length and len(self.v) > self.f.length:
            return False
        vv = [x[0].encode("utf-8", "surrogateescape") if isinstance(x[0], str) else bytes(x[0]) for x in self.f.vv if self.ctx.exists(x[1], x[2], True)]
        return not self.f.vv or self.v in vv

    def minlen(self):
        if self.f.length:
            return self.f.length
        return self.pfx().minlen() if self.f.lp() is not None else int(self.f.zero)

    def maxlen(self): return self.f.length or MAXLEN
    def dump(self): return '"%s"' % self.v.hex()


class List(Seq):
    def init(self):
        self.el = []
        self.detcnt = self.detlen = self.detel = None
        if self.f.count:
            pass

    def det(self):
        d = self.f.det
        return {a: d[k] for a, k in (("detcnt", "countPrefix"), ("detlen", "lengthPrefix"), ("detel", "elemLengthPrefix")) if d.get(k)}

    def det_real(self, attr):
        if attr == "detcnt":
            return len(self.el)
        if attr == "detlen":
            return self.length()
        return self.el[0].length() if self.el else 0

    def new(self):
        n = make(self.f.el(), self.ctx)
        if self.ver is not None:
            n.setver(self.ver)
        return n

    def p(self, k):
        p = self.f.p(k)
        return None if p is None else make(p, self.ctx)

    def raw(self):
        """single byte integers are stored as they are"""
        return False

    def rd_elem(self, b, pos, end, bound):
        n = self.new()
        if self.f.p("elemLengthPrefix") is not None and not self.f.epfixed:
            p = self.p("elemLengthPrefix")
            st, pos = p.read(b, pos, end)
            if st != OK:
                return st, pos
            bound = as_size(p)
        if bound is None:
            st, pos = n.read(b, pos, end)
            if st == OK:
                self.el.append(n)
            return st, pos
        if bound > end - pos:
            return NED, pos
        st, _ = n.read(b, pos, pos + bound)
        if st != OK:
            return (PROTO if st == NED else st), pos
        self.el.append(n)
        return OK, pos + bound

    def rd_all(self, b, pos, end, bound):
        while pos < end:
            st, p = self.rd_elem(b, pos, end, bound)
            if st != OK:
                return st, p
            if p == pos:
                raise Unspecified()
            pos = p
        return OK, pos

    def epf(self, b, pos, end):
        if self.f.p("elemLengthPrefix") is not None and self.f.epfixed:
            p = self.p("elemLengthPrefix")
            st, pos = p.read(b, pos, end)
            return st, pos, as_size(p)
        return OK, pos, self.detel

    def rd(self, b, pos, end):
        self.el = []
        f = self.f
        if f.count == 0 and (f.p("lengthPrefix") is not None or f.det.get("lengthPrefix")):
            if f.p("lengthPrefix") is not None:
                p = self.p("lengthPrefix")
                st, pos = p.read(b, pos, end)
                if st != OK:
                    return st, pos
                n = as_size(p)
            else:
                n = self.detlen
                if n is None:
                    n = end - pos
            if n > end - pos:
                return NED, pos
            st, p2, bound = self.epf(b, pos, pos + n)
            if st == OK:
                st, p2 = self.rd_all(b, p2, pos + n, bound)
            if st != OK:
                return (PROTO if st == NED else st), p2
            return OK, pos + n
        cnt = None
        if f.count:
            cnt = f.count
        elif f.p("countPrefix") is not None:
            p = self.p("countPrefix")
            st, pos = p.read(b, pos, end)
            if st != OK:
                return st, pos
            cnt = as_size(p)
        elif f.det.get("countPrefix"):
            cnt = self.detcnt
        st, pos, bound = self.epf(b, pos, end)
        if st != OK:
            return st, pos
        if f.p("termSuffix") is not None:
            while True:
                t = self.p("termSuffix")
                want = t.dump()
                st, p2 = t.read(b, pos, end)
                if st == OK and t.dump() == want:
                    return OK, p2
                if pos >= end:
                    return NED, pos
                st, p2 = self.rd_elem(b, pos, end, bound)
                if st != OK:
                    return st, p2
                if p2 == pos:
                    raise Unspecified()
                pos = p2
        if cnt is None:
            return self.rd_all(b, pos, end, bound)
        if cnt > 4096:
            # reading of that many elements fails as soon as the data ends, provided an element takes space
            if self.new().minlen() == 0 and not (self.f.p("elemLengthPrefix") is not None and not self.f.epfixed):
                raise Unspecified()
        for _ in range(cnt):
            st, pos = self.rd_elem(b, pos, end, bound)
            if st != OK:
                return st, pos
        return OK, pos

    def body(self):
        f = self.f
        els = list(self.el)
        if f.count:
            els = els[:f.count]
            while len(els) < f.count:
                els.append(self.new())
        out = b""
        if f.p("elemLengthPrefix") is not None and f.epfixed:
            p = self.p("elemLengthPrefix")
            leaf_set(p, (self.el[0] if self.el else self.new()).length())
            out += p.write()
        for e in els:
            if f.p("elemLengthPrefix") is not None and not f.epfixed:
                p = self.p("elemLengthPrefix")
                leaf_set(p, e.length())
                out += p.write()
            out += e.write()
        return out

    def write(self):
        f = self.f
        out = b""
        if not f.count and f.p("countPrefix") is not None:
            p = self.p("countPrefix")
            leaf_set(p, len(self.el))
            out += p.write()
        out += self.body()
        if not f.count and f.p("termSuffix") is not None:
            out += self.p("termSuffix").write()
        if not f.count and f.p("lengthPrefix") is not None:
            p = self.p("lengthPrefix")
            if any(e.length() != len(e.write()) for e in self.el):
                raise Unspecified()   # the length of something tentative
            leaf_set(p, len(out))
            out = p.write() + out
        return out

    def length(self):
        els = list(self.el)
        if self.f.count:
            els = (els + [self.new() for _ in range(self.f.count - len(els))])[:self.f.count]
        # elements which may or may not be there (tentative) are written, but do not count
        return len(self.write()) - sum(len(e.write()) - e.length() for e in els)

    def valid(self):
        f = self.f
        if f.count:
            if len(self.el) > f.count:
                return False
        else:
            for k, v in (("countPrefix", lambda: len(self.el)), ("lengthPrefix", lambda: len(self.body()))):
                if f.p(k) is not None:
                    p = self.p(k)
                    leaf_set(p, v())
                    if not p.valid():
                        return False
        return all(e.valid() for e in self.el)

    def refresh(self): return any([e.refresh() for e in self.el])
    def setver(self, v):
        self.ver = v
        for e in self.el:
            e.setver(v)

    def verdep(self): return self.new_plain().verdep()
    def new_plain(self): return make(self.f.el(), self.ctx)

    def minlen(self):
        f = self.f
        e = self.p("elemLengthPrefix")
        r = e.minlen() if e and f.epfixed else 0
        if f.count:
            return r + f.count * (self.new_plain().minlen() + (e.minlen() if e and not f.epfixed else 0))
        for k in ("countPrefix", "lengthPrefix", "termSuffix"):
            if f.p(k) is not None:
                r += self.p(k).minlen()
        return r

    def maxlen(self):
        f = self.f
        if not f.count:
            return MAXLEN
        e = self.p("elemLengthPrefix")
        return min(MAXLEN, (e.maxlen() if e and f.epfixed else 0) + min(MAXLEN, f.count * min(MAXLEN, self.new_plain().maxlen() + (e.maxlen() if e and not f.epfixed else 0))))

    def dump(self): return "[" + ",".join(e.dump() for e in self.el) + "]"


KINDS = {"int": Num, "enum": Num, "set": Num, "float": Num, "bitfield": Bitfield, "bundle": Bundle, "variant": Variant, "optional": Optional, "string": Prefixed, "data": Prefixed, "list": List}


def make(f, ctx):
    k = f
    while k.kind == "ref":
        k = k.field
    return KINDS[k.kind](f, ctx)


def max_since(f):
    return f.since


def wrapver(n, f, ctx, psince):
    if not ctx.verdep or not ctx.optional(f.since, f.depr, f.removed):
        return n
    if psince < f.since or (f.depr < NEVER and f.removed):
        return VerOpt(n, f.since, f.depr if f.removed else NEVER)
    return n


# ---------------------------------------------------------------- access by name, conditions
def members(n):
    n = n.inner()
    if isinstance(n, (Bundle, Bitfield)):
        return n.m
    if isinstance(n, Optional):
        return [n.n]
    return []


def resolve(ms, path):
    """the node path refers to; None when an optional on the way (or the node itself) is absent"""
    n = None
    for part in path.split("."):
        n = next((m for m in ms if m.name == part), None)
        if n is None:
            raise KeyError(path)
        if isinstance(n, VerOpt) and n.mode != "E":
            return None
        i = n.inner()
        if isinstance(i, Optional) and i.mode != "E":
            return None
        ms = members(n)
    return n.inner()


def as_size(n):
    n = n.inner()
    if isinstance(n, Bundle):
        return as_size(next(m for m in n.m if m.f.sem == 3 or m.decl.sem == 3))
    if isinstance(n, Optional):
        return as_size(n.n)
    return n.v & ((1 << 64) - 1)


def leaf_set(n, v):
    n = n.inner()
    if isinstance(n, Optional):
        return leaf_set(n.n, v)
    if isinstance(n, Bundle):
        raise Unspecified()
    n.set(v)


def cond(c, ms, ctx):
    if isinstance(c, cdsl.CondList):
        return (all if c.type == "and" else any)([cond(x, ms, ctx) for x in c.conds])
    if not c.left:
        ms2, path = scope(c.right, ms, ctx)
        neg = c.op == "!"
        if path[:1] == "?":
            return (resolve(ms2, path[1:]) is not None) != neg
        head, _, bit = path.rpartition(".")
        n = resolve(ms2, head)
        if n is None:
            return False
        return bool(n.v >> n.f.bitmap[bit][0] & 1) != neg
    ms2, path = scope(c.left, ms, ctx)
    if path[:1] == "#":
        n = resolve(ms2, path[1:])
        if n is None:
            return False
        return cmp(c.op, len(n.v) if isinstance(n, Prefixed) else len(n.el), cdsl.to_int(c.right))
    n = resolve(ms2, path)
    if n is None:
        return False
    if c.right[0] in "$%":
        ms3, p3 = scope(c.right, ms, ctx)
        r = resolve(ms3, p3)
        return r is not None and cmp(c.op, cval(n), cval(r))
    return cmp(c.op, cval(n), const(n, c.right))


def cval(n):
    if isinstance(n, Num) and n.f.kind == "float":
        return fval(n.v, n.len)
    return n.v


def const(n, s):
    f = n.f
    if f.kind == "string":
        return f.conv(s).encode()
    if f.kind == "data":
        return bytes(f.conv(s))
    if f.kind == "set":
        return cdsl.to_uint(s)
    if f.kind == "float":
        return ftrunc(f.strval(s), n.len)
    return n.uv(f.strval(s))


def scope(s, ms, ctx): return (ms if s[0] == "$" else list(ctx.iface.values())), s[1:]


def construct(c, ctx):
    """bring the interface fields of a new message to values the condition holds for"""
    if isinstance(c, cdsl.CondList):
        for x in c.conds:
            construct(x, ctx)
        return
    if not c.left:
        ms, path = scope(c.right, None, ctx)
        head, _, bit = path.rpartition(".")
        n = resolve(ms, head)
        m = 1 << n.f.bitmap[bit][0]
        n.set(n.v & ~m if c.op == "!" else n.v | m)
        return
    ms, path = scope(c.left, None, ctx)
    n = resolve(ms, path)
    if c.right[0] == "%":
        ms2, p2 = scope(c.right, None, ctx)
        n.set(resolve(ms2, p2).v)
    else:
        n.set(const(n, c.right))


def cmp(op, a, b):
    return {"=": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


class Message(Group):
    def __init__(self, msg, ctx, ver=None):
        self.msg, self.ctx = msg, ctx
        self.mk(msg.fields, ctx, msg.since)
        if ctx.verdep:
            self.setver(ver if ver is not None else ctx.schema_ver)

    def setver(self, v):
        for m in self.m:
            m.setver(v)

    def read(self, b):
        if self.msg.readcond is not None and not cond(self.msg.readcond, self.m, self.ctx):
            return INV, 0
        st, pos = self.read_members(b, 0, len(b))
        if st == OK and self.msg.fail and not self.valid():
            st = INV
        return st, pos

    def write(self): return b"".join(m.write() for m in self.m)
    def length(self): return sum(m.length() for m in self.m)
    def valid(self): return all(m.valid() for m in self.m) and (self.msg.validcond is None or cond(self.msg.validcond, self.m, self.ctx))
    def refresh(self):
        r = any([m.refresh() for m in self.m])
        return self.refresh_members() or r

    def minlen(self): return min(MAXLEN, sum(m.minlen() for m in self.m))
    def maxlen(self): return min(MAXLEN, sum(m.maxlen() for m in self.m))
    def dump(self): return "{" + ",".join(m.dump() for m in self.m) + "}"
    def has_variant(self): return any(has_variant(m) for m in self.m)


def has_variant(n):
    n = n.inner()
    if isinstance(n, Variant):
        return True
    if isinstance(n, List):
        return has_variant(n.new_plain())
    return any(has_variant(x) for x in members(n))


# ---------------------------------------------------------------- driving a message the way the harness does
class Run:
    """one fresh message object; op() performs an operation and returns what the harness prints for it"""
    STAT = {OK: 0, NED: 2, PROTO: 3, INV: 6, OVF: 4}

    def __init__(self, env, msg):
        self.env = env
        self.ctx = Ctx(env.verdep, env.schema_ver, env.min_remote)
        self.iface = []
        if env.iface is not None:
            for f in env.iface.fields:
                n = make(f, self.ctx)
                self.iface.append(n)
            self.ctx.iface = {n.name: n for n in self.iface}
        self.veridx = next((i for i, n in enumerate(self.iface) if n.f.sem == 1 or n.decl.sem == 1), None)
        self.loose = False
        self.m = Message(msg, self.ctx, self.version())
        if msg.construct is not None:
            construct(msg.construct, self.ctx)
        self.loose = self.m.has_variant()

    def version(self): return self.iface[self.veridx].v if self.veridx is not None else None

    def upd(self):
        """what the object knows of the remote version follows the interface"""
        before = self.m.dump()
        self.last = self.version()
        if self.ctx.verdep and self.version() is not None:
            self.m.setver(self.version())
        return self.m.dump() != before

    def op(self, o):
        c, a = o[0], o[1:]
        if c == "v":
            self.iface[self.veridx].set(int(a))
        elif c == "t":
            p, _, v = a.partition("=")
            set_path(self.iface, p, v)
        elif c == "T":
            return "T" + ("{" + ",".join(n.dump() for n in self.iface) + "}" if self.iface else "-")
        elif c == "s":
            p, _, v = a.partition("=")
            set_path(self.m.m, p, v)
        elif c == "r":
            self.upd()
            st, pos = self.m.read(bytes.fromhex(a))
            if st != OK:
                self.dead = True
                return "R!" if self.loose else "R%d" % self.STAT[st]
            return "R0:%d" % pos
        elif c == "d":
            return "D" + self.m.dump()
        elif c == "l":
            return "L%d" % self.m.length()
        elif c == "V":
            return "V%d" % self.m.valid()
        elif c == "f":
            first = self.ctx.verdep and self.version() is not None and self.last != self.version()
            v = self.upd()
            r = self.m.refresh() or v
            # whether taking over the version alone counts as an update is up to the library
            return "F?" if first and not r else "F%d" % r
        elif c == "w":
            return "W" + self.m.write().hex()
        elif c == "S":
            from gen import names
            return "S" + "".join(x + ";" for x in names.asker(self.env, self.m.msg).want)
        elif c == "c":
            return "C?" if any(isinstance(n, Num) and n.f.kind == "float" and math.isnan(fval(n.v, n.len)) for _, n in leaves(self.m.m)) else "C1"
        elif c == "i":
            return "I%d:%d:%d:%s" % (self.m.minlen(), self.m.maxlen(), self.m.msg.id, (self.m.msg.dname or self.m.msg.name).replace(" ", "_"))
        return None

    dead, last = False, None


class Env:
    """what is common to all messages of a generated definition"""
    def __init__(self, proto, iface=None, forced=None, min_remote=0, verdep=True):
        s = proto.schemas[-1]
        self.schema_ver = s.version if forced is None else forced
        self.min_remote, self.iface = min_remote, iface
        self.verdep = verdep and any(f.sem == 1 for _, n in sorted(s.namespaces.items()) for i in n.all_interfaces() for f in i.fields)


def child(n, i):
    """the i-th inner node the way the harness counts"""
    if isinstance(n, VerOpt):
        return n.n
    if isinstance(n, Optional):
        return n.n
    if isinstance(n, Variant):
        return n.cur
    if isinstance(n, List):
        return n.el[i]
    return n.m[i]


def set_path(ms, path, v):
    idx = [int(x) for x in path.split(".")]
    n = ms[idx[0]]
    for i in idx[1:]:
        n = child(n, i)
    if isinstance(n, (VerOpt, Optional)):
        n.mode = v
    elif isinstance(n, Variant):
        n.select(int(v))
    elif isinstance(n, List):
        n.el = [n.new() for _ in range(int(v))]
    elif isinstance(n, Prefixed):
        n.v = bytes.fromhex(v)
    elif n.f.kind == "float":
        n.set(int(v[1:], 16))
    else:
        n.set(int(v))


def leaves(ms, pre=""):
    """(path, node) of everything that can be set in the current state"""
    for i, n in enumerate(ms):
        p = pre + str(i)
        yield p, n
        yield from inner(n, p)


def inner(n, p):
    if isinstance(n, (VerOpt, Optional)):
        yield p + ".0", n.n
        yield from inner(n.n, p + ".0")
    elif isinstance(n, Variant):
        if n.cur is not None:
            yield p + ".0", n.cur
            yield from inner(n.cur, p + ".0")
    elif isinstance(n, List):
        yield from leaves(n.el, p + ".")
    elif isinstance(n, (Bundle, Bitfield)):
        yield from leaves(n.m, p + ".")


def num_range(n):
    """values a number can have on the wire"""
    bits = n.bits or (7 * n.len if n.var else 8 * n.len)
    bits = min(bits, 64)
    if n.signed:
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if n.sx else (0, (1 << bits) - 1)
        tl, th = -(1 << (n.tbits - 1)), (1 << (n.tbits - 1)) - 1
    else:
        lo, hi, tl, th = 0, (1 << bits) - 1, 0, (1 << n.tbits) - 1
    return max(tl, lo - n.off), min(th, hi - n.off)


def values(n):
    """interesting values of a leaf, as the harness spells them"""
    n2 = n
    f = n.f
    if isinstance(n2, (VerOpt, Optional)):
        return ["E", "M", "T"]
    if isinstance(n2, Variant):
        return [str(i) for i in range(len(f.members))]
    if isinstance(n2, List):
        return ["0", "1", "2", "3"]
    if isinstance(n2, Prefixed):
        return ["", "41", "0102", "616200", "ff" * 5] + ["%s" % x for x in vvals(n)]
    if isinstance(n2, (Bundle, Bitfield)):
        return []
    if f.kind == "float":
        xs = {0.0, 1.5, -2.25, float("inf"), float("nan"), float("-inf")}
        for r in f.ranges:
            for e in r[:2]:
                xs |= {e}
        w = 2 * n.len
        out = {"x%0*x" % (w, fbits(ftrunc(x, n.len), n.len)) for x in xs if not math.isnan(x)} | {"x%0*x" % (w, fbits(float("nan"), n.len))}
        for r in f.ranges:
            for e in r[:2]:
                if math.isfinite(e):
                    b = fbits(ftrunc(e, n.len), n.len)
                    out |= {"x%0*x" % (w, x) for x in (b - 1, b + 1) if 0 <= x < 1 << 8 * n.len}
        return sorted(out)
    lo, hi = num_range(n)
    xs = {0, 1, -1, lo, hi, hi // 2, n.v}
    if f.kind == "int":
        for r in f.ranges:
            for e in r[:2]:
                xs |= {n.uv(e) - 1, n.uv(e), n.uv(e) + 1}
        for sp in f.specials.values():
            xs |= {n.uv(sp[0])}
    elif f.kind == "enum":
        for v in f.values.values():
            xs |= {n.uv(v[0]) - 1, n.uv(v[0]), n.uv(v[0]) + 1}
    else:
        for i in range(n.bits or n.len * 8):
            xs |= {1 << i, hi & ~(1 << i)}
    return [str(x) for x in sorted(xs) if lo <= x <= hi]


def vvals(n):
    return [(x[0].encode("utf-8", "surrogateescape") if isinstance(x[0], str) else bytes(x[0])).hex() for x in n.f.vv]
