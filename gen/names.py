"""Names, special values, bits, enumerators, units: C++ code that asks the generated classes about them by name, and what the reference model says they answer."""
from model import wire as mw

UNITS = {}


def cls(n): return n[0].upper() + n[1:]
def acc(n): return n[0].lower() + n[1:]
def esc(s):
    return "~" if s is None else "'" + "".join(chr(c) if chr(c).isalnum() and c < 128 else "%%%02x" % c for c in s.encode())
def lit(v, signed):
    if signed:
        return "(-9223372036854775807LL - 1)" if v == -(1 << 63) else "%dLL" % v
    return "%dULL" % (v & ((1 << 64) - 1))
def display(d, n): return "" if d == "_" else d or n


class Asker:
    """code: the C++ statements, want: what each statement appends (several acceptable answers separated by '|')"""
    def __init__(self, ctx):
        self.ctx, self.code, self.want, self.n = ctx, [], [], 0

    def ask(self, expr, *answers):
        self.code.append("o += (%s); o += ';';" % expr)
        self.want.append("|".join(answers))

    def sub(self, expr):
        """a reference to a field; returns its name"""
        self.n += 1
        self.code.append("auto&& x%d = %s; using F%d = typename std::decay<decltype(x%d)>::type;" % (self.n, expr, self.n, self.n))
        return self.n

    def field(self, n, expr):
        k = self.sub(expr)
        x, F = "x%d" % k, "F%d" % k
        self.ask("esc(%s::name())" % F, esc(display(n.dname, n.name)))
        if isinstance(n, mw.VerOpt):
            self.field(n.n, x + ".field()")
            return
        f = n.f
        getattr(self, "k_" + f.kind, lambda *a: None)(n, f, x, F)

    def exists(self, since, depr): return self.ctx.exists(since, depr, True)

    def specials(self, n, f, x, F, num):
        sp = {k: v for k, v in f.specials.items() if self.exists(v[1], v[2])}
        self.ask("flag(%s::hasSpecials())" % F, "1" if sp else "0")
        if not sp:
            return
        for k, v in sorted(sp.items()):
            self.ask("num_(%s::value%s())" % (F, cls(k)), num(v[0]))
            self.code.append("%s.set%s();" % (x, cls(k)))
            self.ask("dump(%s)" % x, self.dumpnum(n, v[0]))
            for k2, v2 in sorted(sp.items()):
                self.ask("flag(%s.is%s())" % (x, cls(k2)), "1" if num(v2[0]) == num(v[0]) or self.near(n, v[0], v2[0]) else "0")
            # a value that is not the special one
            other = self.other(n, v[0])
            if other is not None:
                self.code.append("hw::set(%s, p0, \"%s\");" % (x, other))
                self.ask("flag(%s.is%s())" % (x, cls(k)), "0")
        # the map of names holds every special value exactly once
        self.ask("spMap<%s>()" % F, ",".join(sorted("%s=%s" % (k, num(v[0])) for k, v in sp.items())))

    def near(self, n, a, b):
        """floating point specials are compared with a tolerance"""
        if n.f.kind != "float" or a != a or b != b or a in (float("inf"), -float("inf")) or b in (float("inf"), -float("inf")):
            return False
        return abs(a - b) < 1e-3

    def dumpnum(self, n, v):
        n.v = mw.fbits(v, n.len) if n.f.kind == "float" else n.uv(v)
        return n.dump()

    def other(self, n, v):
        if n.f.kind == "float":
            if v != v or v in (float("inf"), -float("inf")):
                w = 1.0
            else:
                w = v + 1.0 if abs(v) < 1000 else v / 2
            return "x%0*x" % (2 * n.len, mw.fbits(w, n.len))
        w = n.uv(v)
        return str(w - 1 if w > 0 else w + 1)

    def k_int(self, n, f, x, F):
        num = lambda v: str(n.uv(v))
        self.specials(n, f, x, F, num)
        self.units(f, F)
        self.ask("std::to_string(%s::displayDecimals())" % F, str(f.decimals)) if f.decimals and n.f.scaling[0] != n.f.scaling[1] else None

    def k_float(self, n, f, x, F):
        self.specials(n, f, x, F, lambda v: "x%0*x" % (2 * n.len, mw.fbits(v, n.len)))
        self.units(f, F)
        self.ask("std::to_string(%s::displayDecimals())" % F, str(f.decimals))

    def units(self, f, F):
        u = UNIT_NAMES[f.units]
        self.ask("flag(std::is_same<UnitsOf<%s>, %s>::value)" % (F, "comms::option::def::Units" + u if u else "NoUnits"), "1")
        n, d = getattr(f, "scaling", (1, 1))
        self.ask("flag((ScalingOf<%s>::num * static_cast<std::intmax_t>(%d)) == (ScalingOf<%s>::denom * static_cast<std::intmax_t>(%d)))" % (F, d or 1, F, n or 1), "1")
        if f.kind == "int":
            self.ask("std::to_string(DispOff<%s>::value)" % F, str(f.doffset))

    def k_enum(self, n, f, x, F):
        if n.f.sem == 2:
            return
        live = {k: v for k, v in f.values.items() if self.ctx.exists(v[1] if v[1] > f.since else 0, v[2], False)}
        sg = n.signed
        vt = "%s::ValueType" % F
        for k, v in sorted(live.items()):
            self.ask("en(%s::%s)" % (vt, k), str(n.uv(v[0])))
        low = min(f.values.items(), key=lambda kv: n.uv(kv[1][0]))[0][0].islower() if len({v[0] for v in f.values.values()}) == len(f.values) else None
        if low is not None:
            # first and last enumerators are about all values of the schema
            for nm, val in (("FirstValue", min(n.uv(v[0]) for v in f.values.values())), ("LastValue", max(n.uv(v[0]) for v in f.values.values()))):
                self.ask("en(%s::%s)" % (vt, self.adj(nm, low, f)), str(val))
            mx = max(n.uv(v[0]) for v in f.values.values())
            lim = (64 if n.var else n.tbits) - sg
            if mx < (1 << lim) - 1:
                self.ask("en(%s::%s)" % (vt, self.adj("ValuesLimit", low, f)), str(mx + 1))
        probes = set()
        lo, hi = (-(1 << (n.tbits - 1)), (1 << (n.tbits - 1)) - 1) if sg else (0, (1 << n.tbits) - 1)
        for v in f.values.values():
            probes |= {n.uv(v[0]) - 1, n.uv(v[0]), n.uv(v[0]) + 1}
        probes |= {0, 1, lo, hi, -1}
        for p in sorted(p for p in probes if lo <= p <= hi):
            names = {esc(display(v[4], k)) for k, v in live.items() if n.uv(v[0]) == p}
            gone = {esc(display(v[4], k)) for k, v in f.values.items() if k not in live and n.uv(v[0]) == p}
            if names:
                # duplicated numbers have the name of one of them
                self.ask("esc(%s::valueNameOf(static_cast<%s>(%s)))" % (F, vt, lit(p, sg)), *sorted(names | gone))
            else:
                self.ask("esc(%s::valueNameOf(static_cast<%s>(%s)))" % (F, vt, lit(p, sg)), *sorted(gone | {"~"}))
        for k, v in list(sorted(live.items()))[:2]:
            self.code.append("%s.setValue(%s::%s);" % (x, vt, k))
            self.ask("esc(%s.valueName())" % x, *sorted({esc(display(w[4], j)) for j, w in f.values.items() if w[0] == v[0]}))

    def adj(self, nm, low, f):
        if low:
            nm = nm[0].lower() + nm[1:]
        while nm in f.values:
            nm += "_"
        return nm

    def k_set(self, n, f, x, F):
        # bit: (idx, since, depr, desc, dname, default, reserved, reservedValue)
        live = {k: b for k, b in f.bitmap.items() if not b[6] and self.ctx.exists(b[1], b[2], False)}
        for k, b in sorted(live.items()):
            self.ask("std::to_string(static_cast<unsigned>(%s::BitIdx_%s))" % (F, k), str(b[0]))
            for v in ("true", "false"):
                self.code.append("%s.setBitValue_%s(%s);" % (x, k, v))
                self.ask("flag(%s.getBitValue_%s())" % (x, k), "1" if v == "true" else "0")
                self.ask("flag(((static_cast<unsigned long long>(%s.getValue()) >> %d) & 1) != 0)" % (x, b[0]), "1" if v == "true" else "0")
        for i in range(max([b[0] for b in f.bitmap.values()] or [0]) + 2):
            names = {esc(display(b[4], k)) for k, b in f.bitmap.items() if b[0] == i and not b[6]}
            res = {esc(display(b[4], k)) for k, b in f.bitmap.items() if b[0] == i and b[6]}
            must = {esc(display(b[4], k)) for k, b in live.items() if b[0] == i}
            self.ask("esc(%s::bitName(static_cast<std::size_t>(%d)))" % (F, i), *sorted((names | res | (set() if must else {"~"})) or {"~"}))

    def sub_members(self, n, f, x, F, ms):
        for i, m in enumerate(ms):
            self.ask("std::to_string(static_cast<unsigned>(%s::FieldIdx_%s))" % (F, acc(m.name)), str(i))
            self.ask("same(%s.field_%s(), std::get<%d>(%s.value()))" % (x, acc(m.name), i, x), "1")
            self.field(m, "%s.field_%s()" % (x, acc(m.name)))
        self.ask("std::to_string(static_cast<unsigned>(%s::FieldIdx_numOfValues))" % F, str(len(ms)))

    def k_bundle(self, n, f, x, F): self.sub_members(n, f, x, F, n.m)
    def k_bitfield(self, n, f, x, F): self.sub_members(n, f, x, F, n.m)

    def k_optional(self, n, f, x, F):
        self.field(n.n, x + ".field()")

    def k_variant(self, n, f, x, F):
        self.ask("varCmp(%s(), %s())" % (F, F), "100")
        for i in range(len(f.members)):
            m = n.mem(i)
            self.ask("std::to_string(static_cast<unsigned>(%s::FieldIdx_%s))" % (F, acc(m.name)), str(i))
            self.code.append("%s.reset();" % x)
            self.field(m, "%s.initField_%s()" % (x, acc(m.name)))
            self.ask("std::to_string(static_cast<unsigned>(%s.currentField()))" % x, str(i))
            self.ask("same(%s.accessField_%s(), %s.accessField_%s())" % (x, acc(m.name), x, acc(m.name)), "1")
            # comparison and copies
            self.ask("varCmp(%s, %s())" % (x, F), "000")
            self.ask("varCmp(%s(), %s)" % (F, x), "010")
            if not mw.has_variant(m) and not self.nan(m):
                self.ask("varCmp(%s, %s)" % (x, x), "100")
                self.ask("varCmp(%s, %s(%s))" % (x, F, x), "100")
                self.ask("varAssign(%s)" % x, "1")
                if i:
                    self.code.append("%s prev%s; prev%s.initField_%s();" % (F, x, x, acc(n.mem(i - 1).name)) if i == 1 else "prev%s.reset(); prev%s.initField_%s();" % (x, x, acc(n.mem(i - 1).name)))
                    self.ask("varCmp(prev%s, %s)" % (x, x), "010")
                    self.ask("varCmp(%s, prev%s)" % (x, x), "000")
        self.ask("std::to_string(static_cast<unsigned>(%s::FieldIdx_numOfValues))" % F, str(len(f.members)))

    def nan(self, m):
        return any(isinstance(l, mw.Num) and l.f.kind == "float" and mw.math.isnan(mw.fval(l.v, l.len)) for _, l in mw.leaves([m]))

    def k_list(self, n, f, x, F):
        if n.raw() if callable(getattr(n, "raw", None)) else False:
            return
        self.code.append("if (%s.value().empty()) { %s.createBack(); }" % (x, x))
        self.field(n.new_plain(), "%s.value()[0]" % x)


UNIT_NAMES = ["", "Nanoseconds", "Microseconds", "Milliseconds", "Seconds", "Minutes", "Hours", "Days", "Weeks", "Nanometers", "Micrometers", "Millimeters", "Centimeters", "Meters", "Kilometers",
              "NanometersPerSecond", "MicrometersPerSecond", "MillimetersPerSecond", "CentimetersPerSecond", "MetersPerSecond", "KilometersPerSecond", "KilometersPerHour", "Hertz", "Kilohertz", "Megahertz", "Gigahertz",
              "Degrees", "Radians", "Nanoamps", "Microamps", "Milliamps", "Amps", "Kiloamps", "Nanovolts", "Microvolts", "Millivolts", "Volts", "Kilovolts", "Bytes", "Kilobytes", "Megabytes", "Gigabytes", "Terabytes"]


def asker(env, msg):
    ctx = mw.Ctx(env.verdep, env.schema_ver, env.min_remote)
    if env.iface is not None:
        ctx.iface = {f.name: mw.make(f, ctx) for f in env.iface.fields}
    m = mw.Message(msg, ctx)
    a = Asker(ctx)
    a.ask("esc(M::doName())", esc(display(msg.dname, msg.name)))
    for i, n in enumerate(m.m):
        a.ask("std::to_string(static_cast<unsigned>(M::FieldIdx_%s))" % acc(n.name), str(i))
        a.field(n, "m.field_%s()" % acc(n.name))
    if m.m:
        a.ask("std::to_string(static_cast<unsigned>(M::FieldIdx_numOfValues))", str(len(m.m)))
    return a


def special_defs(env, ns, msgs):
    """the specialisations of hw::Special for the messages"""
    out = []
    for msg in msgs:
        a = asker(env, msg)
        t = "%s::message::%s<I>" % (ns, msg.name)
        out.append("namespace hw { template <> struct Special<%s > { using M = %s; static std::string go(M& m) { std::string o; Path p0; %s return o; } }; }\n" % (t, t, " ".join(a.code)))
    return "".join(out)


def main_of(b):
    from vlib import wire as vw
    env, allm = vw.env_of(b)
    msgs = [x[1] for x in b.cases]
    ns = b.ns or "s"
    t = vw.main_of(b, msgs)
    i = t.index("int main()")
    return t[:i] + special_defs(env, ns, [allm[m] for m in msgs]) + t[i:]
