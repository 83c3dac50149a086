"""Reference of the framing: what the declared layers put around a message and how a byte string is taken apart.

The layers are those of model.cdsl, in the order they are declared (which is the order on the wire); nothing of how the generator orders its templates is used."""
from model import cdsl, wire
from model.wire import OK, NED, PROTO, INV, OVF, Unspecified
BADID = 5
STAT = {OK: 0, NED: 2, PROTO: 3, INV: 6, OVF: 4, BADID: 5}


def refl(v, n): return int(format(v, "0%db" % n)[::-1], 2)


def crc(b, w, poly, init, xor, rin, rout):
    r = init
    for x in b:
        r ^= (refl(x, 8) if rin else x) << (w - 8)
        for _ in range(8):
            r = (r << 1 ^ poly if r >> (w - 1) & 1 else r << 1) & ((1 << w) - 1)
    return (refl(r, w) if rout else r) ^ xor


def xorsum(b):
    r = 0
    for x in b:
        r ^= x
    return r


ALG = {1: sum, 2: lambda b: crc(b, 16, 0x1021, 0xffff, 0, False, False), 3: lambda b: crc(b, 16, 0x8005, 0, 0, True, True), 4: lambda b: crc(b, 32, 0x04c11db7, 0xffffffff, 0xffffffff, True, True), 5: xorsum}
CUSTOM = {"TwiceSum": lambda b: 2 * sum(b)}


class Frame:
    def __init__(self, env, frame, msgs, byid):
        """msgs: messages in the order of the bundle of all messages"""
        self.env, self.frame, self.msgs = env, frame, msgs
        self.ls = frame.layers
        self.pay = next(i for i, l in enumerate(self.ls) if l.kind == "payload")
        # what every layer wraps: a suffix takes in whatever precedes it on the wire from its first layer on
        at = {l.name: i for i, l in enumerate(self.ls)}
        start, eff = self.pay, {}
        for i in range(self.pay + 1, len(self.ls)):
            l = self.ls[i]
            start = min(start, at[l.from_] if l.from_ else self.pay)
            eff[i] = start
        self.nest = []
        for i in range(self.pay + 1):
            self.nest += [k for k in sorted(eff, reverse=True) if eff[k] == i] + [i]
        self.hasid = any(self.role(i) == "id" for i in self.nest)
        self.pseudo = {}

    def role(self, i):
        l = self.ls[i]
        return l.semtype if l.kind == "custom" else l.kind

    def ctx(self): return wire.Ctx(self.env.verdep, self.env.schema_ver, self.env.min_remote)

    def fnode(self, i): return wire.make(self.ls[i].fld(), self.ctx())

    def num(self, n):
        n = n.inner() if hasattr(n, "inner") else n
        if not isinstance(n, wire.Num) or n.f.kind == "float":
            raise Unspecified()
        return n

    def toid(self, i, v): return v

    # ---- encoding
    def encode(self, run):
        out, _ = self.enc(0, run)
        return out

    def enc(self, k, run):
        """(bytes, sizes) of everything from the k-th layer of the nest on"""
        i = self.nest[k]
        l, role = self.ls[i], self.role(i)
        if role == "payload":
            return run.m.write(), None
        inner, _ = self.enc(k + 1, run)
        n = self.fnode(i)
        if role == "id":
            self.num(n).set(run.m.msg.id)
        elif role == "size":
            self.num(n).set(len(inner))
        elif role == "value":
            self.assign(n, run.iface[l.idx] if l.kind == "value" else None)
            if l.vpseudo:
                return inner, None
        elif role == "checksum":
            self.num(n).set(self.sum(i, inner))
        w = n.write()
        return (inner + w if i > self.pay else w + inner), None

    def assign(self, dst, src):
        if isinstance(dst, wire.Num) and isinstance(src, wire.Num):
            dst.v = wire.wrap(src.v, dst.tbits, dst.signed) if dst.f.kind != "float" else src.v
            if dst.f.fixed:
                raise Unspecified()
        elif isinstance(dst, wire.Bitfield) and isinstance(src, wire.Bitfield) and len(dst.m) == len(src.m):
            for a, b in zip(dst.m, src.m):
                self.assign(a, b)
        elif isinstance(dst, wire.Bundle) and isinstance(src, wire.Bundle) and len(dst.m) == len(src.m):
            for a, b in zip(dst.m, src.m):
                self.assign(a, b)
        elif isinstance(dst, wire.Prefixed) and isinstance(src, wire.Prefixed):
            dst.v = src.v
        else:
            raise Unspecified()

    def sum(self, i, b):
        l = self.ls[i]
        f = ALG[l.alg] if l.kind == "checksum" and l.alg else CUSTOM[l.algname or "TwiceSum"]
        n = self.num(self.fnode(i))
        return wire.wrap(f(b), n.tbits, n.signed)

    # ---- decoding
    def decode(self, b, concrete=None):
        """(status, consumed, message run or None, nodes of the layers)"""
        self.nodes = {i: self.fnode(i) for i in self.nest if self.ls[i].kind != "payload"}
        self.pend = []
        self.msg = None
        if not self.hasid:
            self.msg = wire.Run(self.env, concrete)
        self.missing = None
        st, pos = self.dec(0, b, 0, len(b))
        return st, pos, self.msg

    def drop(self):
        if self.hasid:
            self.msg = None

    def dec(self, k, b, pos, end):
        i = self.nest[k]
        return getattr(self, "dec_" + self.role(i), self.dec_plain)(k, i, self.ls[i], b, pos, end)

    def fread(self, i, b, pos, end):
        self.nodes[i] = n = self.fnode(i)
        st, p = n.read(b, pos, end)
        if st == INV and self.ls[i].kind == "sync":
            st = PROTO
        return st, p

    def dec_plain(self, k, i, l, b, pos, end):
        st, p = self.fread(i, b, pos, end)
        if st != OK:
            return st, p
        return self.dec(k + 1, b, p, end)

    def dec_payload(self, k, i, l, b, pos, end):
        if self.msg is None:
            return BADID, pos
        self.msg.upd()
        st, p = self.msg.m.read(b[:end][pos:])
        return st, pos + p

    def want(self, i): return self.fnode(i)

    def same(self, i): return self.nodes[i].dump() == self.want(i).dump()

    def dec_sync(self, k, i, l, b, pos, end):
        w = self.want(i)
        fl = w.length()
        if i < self.pay:
            if l.seek:
                p = self.seek(i, l, b, pos, end)
                if p is None:
                    return NED, pos
                pos = p
            st, p = self.fread(i, b, pos, end)
            if st != OK:
                return st, p
            if not self.same(i):
                return PROTO, p
            return self.dec(k + 1, b, p, end)
        if end - pos < fl:
            return NED, pos
        if l.seek:
            p = self.seek(i, l, b, pos, end)
            if p is None:
                return NED, pos
            st, q = self.dec(k + 1, b, pos, p)
            if st == NED:
                self.drop()
                return PROTO, q
            return st, (p + fl if st != PROTO else q)
        if l.verify_first:
            st, q = self.fread(i, b, end - fl, end)
            if st != OK:
                return st, pos
            if not self.same(i):
                return PROTO, pos
            st, p = self.dec(k + 1, b, pos, end - fl)
            return st, (q if st not in (NED, PROTO) else p)
        st, p = self.dec(k + 1, b, pos, end - fl)
        if st in (NED, PROTO):
            return st, p
        s2, q = self.fread(i, b, p, end)
        if s2 != OK:
            self.drop()
            return s2, q
        if not self.same(i):
            self.drop()
            return PROTO, q
        return st, q

    def seek(self, i, l, b, pos, end):
        fl = self.want(i).length()
        while pos + fl <= end:
            if l.esc is not None:
                e, d = wire.make(l.esc, self.ctx()), wire.make(l.esc, self.ctx())
                st, p = e.read(b, pos, end)
                if st == OK and e.dump() == d.dump():
                    pos = p + 1
                    continue
            st, _ = self.fread(i, b, pos, end)
            if st == OK and self.same(i):
                return pos
            pos += 1
        return None

    def dec_size(self, k, i, l, b, pos, end):
        st, p = self.fread(i, b, pos, end)
        if st != OK:
            return st, p
        rem = self.num(self.nodes[i]).v & (1 << 64) - 1
        if end - p < rem:
            return NED, p
        st, q = self.dec(k + 1, b, p, p + rem)
        if st == NED:
            self.drop()
            return PROTO, q
        return st, (p + rem if st != PROTO else q)

    def dec_value(self, k, i, l, b, pos, end):
        if l.kind == "value" and l.vpseudo:
            n = self.fnode(i)
            if i in self.pseudo:
                n.set(int(self.pseudo[i]))
            self.nodes[i] = n
            p = pos
        else:
            st, p = self.fread(i, b, pos, end)
            if st != OK:
                return st, p
        v = self.nodes[i]
        if self.msg is not None:
            self.assign(self.msg.iface[l.idx], v)
            return self.dec(k + 1, b, p, end)
        self.pend.append((l.idx, v))
        return self.dec(k + 1, b, p, end)

    def dec_checksum(self, k, i, l, b, pos, end):
        fl = self.nodes[i].minlen()
        custom = l.kind == "custom"
        if i < self.pay:
            st, p = self.fread(i, b, pos, end)
            if st != OK:
                return st, p
            if l.verify_first:
                if self.sum(i, b[p:end]) != self.num(self.nodes[i]).v:
                    return PROTO, p
                return self.dec(k + 1, b, p, end)
            f = self.nodes[i]
            st, q = self.dec(k + 1, b, p, end)
            if st in (NED, PROTO):
                return st, q
            if self.sum(i, b[p:q]) != self.num(f).v:
                self.drop()
                return PROTO, q
            return st, q
        if end - pos < fl:
            return NED, pos
        if l.verify_first:
            st, q = self.fread(i, b, end - fl, end)
            if st != OK:
                return st, pos
            if self.sum(i, b[pos:end - fl]) != self.num(self.nodes[i]).v:
                return PROTO, pos
            st, p = self.dec(k + 1, b, pos, end - fl)
            return st, (q if st not in (NED, PROTO) else p)
        st, p = self.dec(k + 1, b, pos, end - fl)
        if st in (NED, PROTO):
            return st, p
        s2, q = self.fread(i, b, p, end)
        if s2 != OK:
            self.drop()
            return s2, q
        if self.sum(i, b[pos:p]) != self.num(self.nodes[i]).v:
            self.drop()
            return PROTO, q
        return st, q

    def dec_id(self, k, i, l, b, pos, end):
        st, p = self.fread(i, b, pos, end)
        if st != OK:
            return st, p
        v = self.num(self.nodes[i]).v
        if not -(1 << 31) <= v < 1 << 32:
            raise Unspecified()  # does not fit the type of the generated enumeration of ids
        st, q = BADID, p
        for m in self.msgs:
            if m.id != v:
                continue
            self.msg = wire.Run(self.env, m)
            for idx, n in self.pend:
                self.assign(self.msg.iface[idx], n)
            st, q = self.dec(k + 1, b, p, end)
            if st == OK or self.msg is None:
                return st, q
            self.msg = None
        if st == BADID:
            s2, q = self.dec(k + 1, b, p, end)
            return (s2 if s2 in (NED, PROTO) else BADID), q
        return st, q

    def show(self, st, pos):
        s = "R%d" % STAT[st]
        if st in (OK, BADID):
            s += ":%d" % pos
        if st != OK:
            return s
        r = self.msg
        t = "{" + ",".join(n.dump() for n in r.iface) + "}" if r.iface else "-"
        return s + ":" + (r.m.msg.dname or r.m.msg.name).replace(" ", "_") + r.m.dump() + t + "[" + ",".join(self.nodes[i].dump() for i in self.nest if self.ls[i].kind != "payload") + "]"
