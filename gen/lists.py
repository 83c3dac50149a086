"""Families for C05: message identifiers, bundles, factories and dispatchers.

A definition is described by a list of Msg records; the schema text, the program that prints what the generated code contains, and the expected output are all derived from it."""
import itertools, os
from gen.fam import el, schema
from vlib import wire as vw

SENDERS = ("both", "client", "server")


class Msg:
    def __init__(self, name, id, sender="both", plats=None, ns="", order=None, since=None, depr=None, removed=False, idtext=None):
        self.name, self.id, self.sender, self.plats, self.ns, self.order, self.since, self.depr, self.removed, self.idtext = name, id, sender, plats, ns, order, since, depr, removed, idtext

    def xml(self):
        a = [("name", self.name), ("id", self.idtext or str(self.id))]
        if self.sender != "both":
            a.append(("sender", self.sender))
        for k, v in (("platforms", self.plats), ("order", self.order), ("sinceVersion", self.since), ("deprecated", self.depr)):
            if v is not None:
                a.append((k, str(v)))
        if self.removed:
            a.append(("removed", "true"))
        return el("message", a)

    def on(self, p, allp):
        if not self.plats:
            return True
        l = [x.strip() for x in self.plats[1:].split(",") if x.strip()]
        return p in l if self.plats[0] == "+" else p not in l


class Def:
    def __init__(self, key, msgs, plats=(), bundles=(), args=(), forced=None, minr=0, verdep=True, pre="", nsextra=None, idtype=None, enumvals=None, version=5, extra_ids=(), extra_frame=(), main=None, fails=None, attrs=None):
        """bundles: [(name, command line item, file name, file text, [messages])]; nsextra: {ns: xml}"""
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.nsextra = dict(nsextra or {})
        if not any("<frame" in t for t in self.nsextra.values()):
            self.nsextra[""] = self.nsextra.get("", "") + FRAME % "Fr"

    def exist(self):
        return self.msgs    # version options do not remove messages

    def nss(self):
        s = set()
        for n in [m.ns for m in self.msgs] + list(self.nsextra or {}):
            while n:
                s.add(n)
                n = n.rpartition(".")[0]
        return sorted(s)

    def doc(self):
        def body(ns):
            t = (self.nsextra or {}).get(ns, "") + "".join(m.xml() for m in self.msgs if m.ns == ns)
            for n in self.nss():
                if n.rpartition(".")[0] == ns:
                    t += el("ns", {"name": n.rpartition(".")[2]}, body(n))
            return t
        pl = el("platforms", {}, *[el("platform", {"name": p}) for p in self.plats]) if self.plats else ""
        a = {"nonUniqueMsgIdAllowed": "true", "endian": "big", "version": str(self.version)}
        a.update(self.attrs or {})
        return schema(pl + self.pre + body(""), **a)


def up(s): return s[0].upper() + s[1:]


def groups(d):
    """[(prefix, message filter)]"""
    g = [("", lambda m: True)]
    for p in sorted(set(d.plats)):
        g.append((up(p), lambda m, p=p: m.on(p, d.plats)))
    for b in d.bundles:
        g.append((up(b[0]), lambda m, b=b: (m.ns + "." + m.name if m.ns else m.name) in b[4]))
    out = []
    for pre, f in g:
        out.append((pre or "All", pre, f))
        out.append((pre + "ClientInput", pre + "ClientInput", lambda m, f=f: f(m) and m.sender != "client"))
        out.append((pre + "ServerInput", pre + "ServerInput", lambda m, f=f: f(m) and m.sender != "server"))
    return out


def macro(s):
    return "".join(("_" if i and c.isupper() else "") + c.upper() for i, c in enumerate(s))


def inside(m, ns): return m.ns == ns or (ns and m.ns.startswith(ns + "."))   # what is defined outside of any namespace has lists of its own


def sort(ms): return sorted(ms, key=lambda m: (m.id, int(m.order or 0)))


def idmsgs(d):
    """MsgId of the schema names the messages outside of namespaces, or all of them when there are none"""
    ex = d.exist()
    return [m for m in ex if not m.ns] or ex


def ids_of(d):
    mx = (1 << 64) if d.idtype is None and any(m.id >> 32 for m in d.exist()) else (1 << 32)
    if d.idtype:
        mx = 1 << d.idtype
    s = {0, 1, 2, mx - 1, mx // 2, mx // 2 - 1, (mx >> 1) + 1}
    for m in d.exist():
        s |= {m.id - 1, m.id, m.id + 1, m.id ^ 256, m.id ^ 0x80000000}
    s |= set(d.extra_ids)
    return sorted(x for x in s if 0 <= x < mx)


def nslist(d):
    """lists, factories and dispatchers belong to the namespaces that define frames, directly or in a nested namespace"""
    return [n for n in [""] + d.nss() if any("<frame" in t and inside2(k, n) for k, t in d.nsextra.items())]


def inside2(k, n): return k == n or (n and k.startswith(n + "."))


def main_of(d):
    ex = d.exist()
    inc, code = [], []
    main = d.main or "s"
    cpp = main
    nsl = nslist(d)
    ids = ids_of(d)
    code.append("static const std::vector<std::uintmax_t> ids = {%s};" % ", ".join("%dULL" % i for i in ids))
    inc.append("%s/Message.h" % main)
    inc.append("%s/MsgId.h" % main)
    for n in ("Client", "Server"):
        inc.append("%s/options/%sDefaultOptions.h" % (main, n))
    code.append("using I = %s::Message<comms::option::app::IdInfoInterface, comms::option::app::NameInterface, comms::option::app::ReadIterator<const std::uint8_t*> >;" % cpp)
    code.append("using O = %s::options::DefaultOptions;" % cpp)
    code.append("struct AnyMsg : public I { const char* mcNameImpl() const override { return nullptr; } typename I::MsgIdParamType mcGetIdImpl() const override { return typename I::MsgIdParamType(); } comms::ErrorStatus mcReadImpl(typename I::ReadIterator&, std::size_t) override { return comms::ErrorStatus::Success; } };")
    body = []
    # identifiers
    if d.enumvals is not None:
        for n, v in d.enumvals:
            body.append('hl::line("id.%s", std::to_string(static_cast<std::uintmax_t>(%s::MsgId_%s)));' % (n, cpp, n))
    else:
        for m in idmsgs(d):
            n = (m.ns.replace(".", "_") + "_" if m.ns else "") + up(m.name)
            body.append('hl::line("id.%s", std::to_string(static_cast<std::uintmax_t>(%s::MsgId_%s)));' % (n, cpp, n))
    for ns in nsl:
        path = main + ("/" + ns.replace(".", "/") if ns else "")
        q = cpp + ("::" + ns.replace(".", "::") if ns else "")
        seen = set()
        for lname, dname, f in groups(d):
            if lname in seen:
                continue
            seen.add(lname)
            l = lname + "Messages"
            cnts = ", ".join("%d" % len([m for m in ex if inside(m, ns) and f(m) and m.id == i]) for i in ids)
            inc.append("%s/input/%s.h" % (path, l))
            inc.append("%s/dispatch/Dispatch%sMessage.h" % (path, dname))
            inc.append("%s/factory/%sDynMemMsgFactory.h" % (path, l))
            lab = (ns + ":" if ns else "") + lname
            body.append('hl::list<%s::input::%s<I> >("%s.list");' % (q, l, lab))
            body.append('hl::list<%s::input::%s<I, O> >("%s.list");' % (q, l, lab))
            for o in ("O",):
                body.append('hl::factory<%s::factory::%sDynMemMsgFactory<I, %s> >("%s", ids);' % (q, l, o, lab))
            for disp, pl, ix in (("fn", "%s::dispatch::dispatch%sMessage<O>(id, m, h)", "%s::dispatch::dispatch%sMessage<O>(id, i, m, h)"),
                                 ("def", "%s::dispatch::dispatch%sMessageDefaultOptions(id, m, h)", "%s::dispatch::dispatch%sMessageDefaultOptions(id, i, m, h)"),
                                 ("cls", "%s::dispatch::%sMsgDispatcher<O>::dispatch(id, m, h)", "%s::dispatch::%sMsgDispatcher<>::dispatch(id, i, m, h)"),
                                 ("cld", "%s::dispatch::%sMsgDispatcherDefaultOptions::dispatch(id, m, h)", "%s::dispatch::%sMsgDispatcherDefaultOptions::dispatch(id, i, m, h)")):
                body.append('hl::dispatch<I>("%s.%s", any, ids, {%s}, [](auto id, I& m, auto& h) { return %s; }, [](auto id, std::size_t i, I& m, auto& h) { return %s; });' % (lab, disp, cnts, pl % (q, dname), ix % (q, dname)))
            sel = [m for m in ex if inside(m, ns) and f(m)]
            if len({up(m.name) for m in sel}) == len(sel):
                k = "AL%d" % len(code)
                mc = "%s_ALIASES_FOR_%s" % (q.replace("::", "_").upper(), macro(l))
                code.append("namespace %s { %s(P, S, I, O) }\nnamespace %sd { %s_DEFAULT_OPTIONS(P, S, I) }" % (k, mc, k, mc))
                body.append('hl::list<std::tuple<%s> >("%s.alias");' % (", ".join("%s::P%sS" % (k, up(m.name)) for m in sort(sel)), lab))
                body.append('hl::list<std::tuple<%s> >("%s.alias");' % (", ".join("%sd::P%sS" % (k, up(m.name)) for m in sort(sel)), lab))
    # directions
    for n, m in enumerate(ex):
        q = (m.ns.replace(".", "::") + "::" if m.ns else "") + "message::" + up(m.name)
        code.append('template <typename T, typename = void> struct Dir%d { static std::string get() { return std::string(); } };' % n)
        code.append('template <typename T> struct Dir%d<T, std::void_t<typename T::%s> > { using L = comms::details::Flatten<typename T::%s>; static std::string get() { return std::string() + %s; } };' % (n, q, q,
                    " + ".join('(comms::details::hasOpt<comms::option::app::%s, L>() ? "%s " : "")' % (o, o) for o in DIROPTS)))
        for side in ("Client", "Server"):
            body.append('hl::line("dir.%s.%s", Dir%d<%s::options::%sDefaultOptions>::get());' % (side, m.ns + "." + m.name, n, cpp, side))
    if d.extra_frame:
        for lname, dname, f in groups(d):
            inc.append("%s/options/%sMessagesDynMemMsgFactoryDefaultOptions.h" % (main, lname))
            fi = "%s::options::%sMessagesDynMemMsgFactoryDefaultOptions" % (cpp, lname)
            for ns, fr in d.extra_frame:
                q = cpp + ("::" + ns.replace(".", "::") if ns else "")
                inc.append("%s/frame/%s.h" % (main + ("/" + ns.replace(".", "/") if ns else ""), fr))
                body.append('hl::frame<%s::frame::%s<I, %s::input::%sMessages<I, %s>, %s>, I>("frame.%s.%s", ids);' % (q, fr, q, "All", fi, fi, ns + ":" + fr, lname))
    return "".join(['#include "lists.h"\n'] + ['#include "%s"\n' % i for i in sorted(set(inc))] + [c + "\n" for c in code] + ["int main() { AnyMsg any;\n"] + [b + "\n" for b in body] + ["return 0; }\n"])


DIROPTS = ("NoReadImpl", "NoWriteImpl", "NoDispatchImpl", "NoRefreshImpl")


def expected(d):
    ex = d.exist()
    out = []
    if d.enumvals is not None:
        for n, v in d.enumvals:
            out.append("id.%s: %d" % (n, v))
    else:
        for m in idmsgs(d):
            out.append("id.%s: %d" % ((m.ns.replace(".", "_") + "_" if m.ns else "") + up(m.name), m.id))
    ids = ids_of(d)
    for ns in nslist(d):
        seen = set()
        for lname, dname, f in groups(d):
            if lname in seen:
                continue
            seen.add(lname)
            lab = (ns + ":" if ns else "") + lname
            sel = sort([m for m in ex if inside(m, ns) and f(m)])
            l = "".join("%s=%d " % (m.name, m.id) for m in sel)
            out += ["%s.list: %s" % (lab, l)] * 2
            s = ""
            uniq = len({m.id for m in sel}) == len(sel)
            own = {i: [m for m in sel if m.id == i] for i in ids}
            for i in ids:
                o = own[i]
                s += "%d#%d" % (i, len(o))
                for x in range(4):
                    s += ",%s/%dr0" % (o[x].name, i) if x < len(o) else ",-r1"
                s += ",%s " % (o[0].name if o else "-")
            out.append("%s.create: %s" % (lab, s))
            out.append("%s.unique: %d" % (lab, uniq))
            s = ""
            for i in ids:
                o = [m.name for m in own[i]] + ["?"] * 4
                # an index that no message of a single-message identifier has is never dispatched
                s += "%d=%s," % (i, o[0]) + ",".join(o[:1] if len(own[i]) == 1 else o[:4]) + " "
            for k in ("fn", "def", "cls", "cld"):
                out.append("%s.%s: %s" % (lab, k, s))
            if len({up(m.name) for m in sel}) == len(sel):
                out += ["%s.alias: %s" % (lab, l)] * 2
    for m in ex:
        for side in ("Client", "Server"):
            if m.sender == "both":
                o = ""
            elif m.sender == side.lower():
                o = "NoReadImpl NoDispatchImpl "
            else:
                o = "NoWriteImpl NoRefreshImpl "
            out.append("dir.%s.%s: %s" % (side, m.ns + "." + m.name, o))
    if d.extra_frame:
        for lname, dname, f in groups(d):
            for ns, fr in d.extra_frame:
                sel = sort([m for m in ex if inside(m, ns) and f(m)])
                s = ""
                for i in ids:
                    if i < 65536:
                        o = [m for m in sel if m.id == i]
                        s += "%d=%s " % (i, o[0].name if o else "r5")
                out.append("frame.%s.%s: %s" % (ns + ":" + fr, lname, s))
    return out


IDS = [0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff]
FRAME = '<frame name="%s"><id name="id"><field><int name="fi" type="uint16"/></field></id><payload name="pl"/></frame>'


def fam_ids():
    for n, (a, b) in enumerate(itertools.combinations_with_replacement(IDS, 2)):
        s = SENDERS[n % 3], SENDERS[(n // 3) % 3]
        o = ("1", "0") if a == b else (None, None)
        yield Def("ids|%x-%x" % (a, b), [Msg("Beta", b, s[0], order=o[0]), Msg("Alpha", a, s[1], order=o[1])])
    # document order, groups of equal ids
    for n, perm in enumerate(itertools.product((3, 5), repeat=4)):
        cnt = {}
        ms = []
        for i, x in enumerate(perm):
            k = cnt.get(x, 0)
            cnt[x] = k + 1
            ms.append(Msg("M%d" % i, x, SENDERS[(i + n) % 3], order=str([2, 0, 1, 3][k] if cnt else 0)))
        yield Def("order|%d" % n, ms, extra_frame=[("", "Fr")], nsextra={"": FRAME % "Fr"})


def fam_send():
    pl = ["p1", "plat2", "P3"]
    specs = [None, "+p1", "+plat2", "+p1,P3", "-p1", "-plat2, P3", "+P3,p1,p1", "-p1,plat2"]
    for n, idf in enumerate((lambda i: i + 1, lambda i: 100 - i, lambda i: 7, lambda i: (i * 5) % 8, lambda i: i // 6)):
        ms = [Msg("M%d" % i, idf(i), s, p, order=str(i) if n >= 2 else None) for i, (s, p) in enumerate(itertools.product(SENDERS, specs))]
        yield Def("send|%d" % n, ms, pl, extra_frame=[("", "Fr")], nsextra={"": FRAME % "Fr"})
    # all pairs of (sender, platform) on one id
    for n, (x, y) in enumerate(itertools.combinations(list(itertools.product(SENDERS, [None, "+p1", "+plat2"])), 2)):
        yield Def("pair|%d" % n, [Msg("Xx", 9, x[0], x[1], order="1"), Msg("Yy", 9, y[0], y[1], order="2")], ["plat2", "p1"])
    for names in (["client"], ["server", "client"], ["a"], ["aB", "ab"], ["x_y", "z9"]):
        yield Def("platname|" + "-".join(names), [Msg("M1", 1, "client", "+" + names[0]), Msg("M2", 2, "server", "-" + names[0]) if len(names) > 1 else Msg("M2", 2, "server"), Msg("M3", 3)], names)


def fam_exist():
    ms = [Msg("M%d" % i, 50 - i, SENDERS[i % 3], since=s, depr=d, removed=r) for i, (s, d, r) in enumerate([(None, None, False), ("1", None, False), ("3", None, False), ("5", None, False), (None, "1", False), (None, "1", True), ("1", "3", True), ("2", "5", True), ("3", "4", True), (None, "5", True)])]
    for m in ms:
        m.since = int(m.since) if m.since else None
        m.depr = int(m.depr) if m.depr else None
    for forced in (None, 0, 1, 2, 3, 4):
        for minr in (0, 1, 3, 4):
            if forced is not None and minr > forced:
                continue
            for vi in (False, True):
                args = (["-m", str(minr)] if minr else []) + (["--force-schema-version", str(forced)] if forced is not None else []) + (["--version-independent-code"] if vi else [])
                yield Def("exist|%s|%d|%d" % (forced, minr, vi), ms, args=args, forced=forced, minr=minr, bundles=())


def fam_ns():
    ch = ["", "a", "a.b", "c"]
    for n, t in enumerate(itertools.product(ch, repeat=3)):
        ids = [(5, 5, 5), (3, 2, 1), (1, 2, 2)][n % 3]
        ms = [Msg("M%d" % i, x, SENDERS[(n + i) % 3], ns=ns, order=str(i)) for i, (x, ns) in enumerate(zip(ids, t))]
        fr = [[("", "Fr")], [("a", "Ga")], [("", "Fr"), ("a.b", "Gb")], [("c", "Gc"), ("a", "Ga")], [("", "Fr"), ("a", "Ga"), ("a.b", "Gb"), ("c", "Gc")]][n % 5]
        yield Def("ns|%d" % n, ms, extra_frame=fr, nsextra={k: FRAME % f for k, f in fr})
    ms = [Msg("M%d" % i, 10 - i, SENDERS[i % 3], (None, "+p1", "-p1")[i // 3 % 3], ns=ns, order=None) for i, ns in enumerate(["", "a", "a.b", "c", "a.b", "a", "", "c", "a.b"])]
    yield Def("nsplat", ms, ["p1", "p2"], extra_frame=[("", "Fr"), ("a.b", "Gb")], nsextra={"": FRAME % "Fr", "a.b": FRAME % "Gb"})
    yield Def("nsname", [Msg("Same", 1, ns=""), Msg("Same", 2, ns="a"), Msg("same", 3, ns="a.b")])
    yield Def("nsframes", [Msg("M1", 1), Msg("M2", 2, "client")], nsextra={"": FRAME % "Fr", "z": FRAME % "Gz", "y.x": FRAME % "Gx"}, extra_frame=[("", "Fr"), ("z", "Gz"), ("y.x", "Gx")])
    yield Def("many", [Msg("M%02d" % i, (i * 37) % 97, SENDERS[i % 3], order=str(i)) for i in range(97)])
    yield Def("manysame", [Msg("M%02d" % i, i % 5, SENDERS[i // 5 % 3], order=str(40 - i)) for i in range(40)])
    yield Def("none", [], extra_frame=[("", "Fr")], nsextra={"": FRAME % "Fr"})
    yield Def("lower", [Msg("m1", 2, "client"), Msg("zed", 1, "server"), Msg("x_Y", 3)])


def fam_bundle():
    ms = [Msg("M%d" % i, 20 - i, SENDERS[i % 3], ns=("", "a", "a.b")[i // 3 % 3]) for i in range(9)]
    full = [m.ns + "." + m.name if m.ns else m.name for m in ms]
    def B(name, sel, text=None, arg=None, fn=None): return (name, arg if arg is not None else "%s@%s" % (name, fn or "l.txt"), fn or "l.txt", text if text is not None else "".join(x + "\n" for x in sel), sel)
    def D(key, bs, **k):
        return Def("bundle|" + key, ms, bundles=bs, args=["--extra-messages-bundle", ",".join(b[1] for b in bs)], extra_frame=[("", "Fr")], nsextra={"": FRAME % "Fr"}, **k)
    for n in range(9):
        yield D("one%d" % n, [B("ex", [full[n]])])
    for n, sel in enumerate([full[:4], full[::-1], full[::2], full[1::3], [full[8], full[0]]]):
        yield D("sel%d" % n, [B("Sel", sel)])
    yield D("two", [B("b1", full[:3], fn="l1.txt"), B("b2", full[2:6], fn="l2.txt")])
    yield D("three", [B("x", full[:3], fn="l1.txt"), B("y", full[2:6], fn="l2.txt"), B("z", full[6:], fn="l3.txt")])
    yield D("noname", [B("lst", full[:5], arg="lst.txt", fn="lst.txt")])
    yield D("nonamedir", [B("lst", full[:5], arg="sub/lst.x", fn="sub/lst.x")])
    yield D("emptyname", [B("lst", full[:5], arg="@lst.txt", fn="lst.txt")])
    yield D("crlf", [B("ex", full[:3], text="\r\n".join(full[:3]) + "\r\n")])
    yield D("blank", [B("ex", full[:3], text="\n\n" + "\n\n\n".join(full[:3]))])
    yield D("dup", [B("ex", full[:3], text="\n".join(full[:3] * 2))])
    yield D("nolast", [B("ex", full[:3], text="\n".join(full[:3]))])
    yield D("empty", [B("ex", [], text="")])
    yield D("missing", [B("ex", [], text="M0\nNope\n")], fails="unknown message")
    yield D("wrongns", [B("ex", [], text="a.M0\n")], fails="message of another namespace")
    yield D("nofile", [("ex", "ex@none.txt", "l.txt", "", [])], fails="no such file")
    yield Def("bundle|plat", ms[:2] + [Msg("Pm", 99, "client", "+p1"), Msg("Pn", 98, "server", "-p1")], ["p1", "p2"], bundles=[B("ex", ["Pm", "M1"])], args=["--extra-messages-bundle", "ex@l.txt"])
    rm = [Msg("M0", 1), Msg("M1", 2, since=3), Msg("M2", 3, depr=2, removed=True)]
    yield Def("bundle|exist", rm, bundles=[B("ex", ["M0", "M1"])], args=["--extra-messages-bundle", "ex@l.txt"])


def fam_enum():
    def E(vals, t="uint8", **a): return el("fields", {}, el("enum", dict({"name": "MsgIdF", "type": t, "semanticType": "messageId"}, **a), *[el("validValue", {"name": n, "val": str(v)}) for n, v in vals]))
    for t, bits in (("uint8", 8), ("uint16", 16), ("uint32", 32), ("uint64", 64)):
        top = (1 << bits) - 1
        for vals in ([("Aa", 1), ("Bb", 2)], [("Aa", 0), ("Bb", top)], [("Aa", top - 1), ("Bb", 1), ("Unused", 77)], [("Aa", 1 << (bits - 1)), ("Bb", (1 << (bits - 1)) - 1)]):
            v = dict(vals)
            for byname in (0, 1):
                ms = [Msg(n + "Msg", v[n], SENDERS[i % 3], idtext="MsgIdF." + n if byname else None) for i, n in enumerate(v) if n != "Unused"]
                yield Def("enum|%s|%d|%d" % (t, [v for v in vals][0][1] & 0xffff, byname) + "-%x" % vals[1][1], ms, pre=E(vals, t), enumvals=vals, idtype=bits)
    vals = [("Aa", 1), ("Bb", 2), ("Cc", 3)]
    yield Def("enum|dupval", [Msg("M1", 2, "client", order="1"), Msg("M2", 2, "server", order="0"), Msg("M3", 1)], pre=E([("Aa", 1), ("Bb", 2), ("Bc", 2)], nonUniqueAllowed="true"), enumvals=[("Aa", 1), ("Bb", 2), ("Bc", 2)], idtype=8)
    yield Def("enum|hex", [Msg("M1", 200), Msg("M2", 100)], pre=E([("Aa", 100), ("Bb", 200)], hexAssign="true"), enumvals=[("Aa", 100), ("Bb", 200)], idtype=8)
    yield Def("enum|len", [Msg("M1", 70000), Msg("M2", 100)], pre=E([("Aa", 100), ("Bb", 70000)], "uint32", length="3"), enumvals=[("Aa", 100), ("Bb", 70000)], idtype=24)
    two = '<fields><enum name="E1" type="uint8" semanticType="messageId"><validValue name="Aa" val="1"/></enum><enum name="E2" type="uint16" semanticType="messageId"><validValue name="Bb" val="2"/></enum></fields>'
    yield Def("enum|two", [Msg("M1", 1), Msg("M2", 2)], pre=two)
    yield Def("enum|other", [Msg("M1", 1), Msg("M2", 9)], pre=E([("Aa", 1), ("Bb", 2)]), enumvals=[("Aa", 1), ("Bb", 2)], idtype=8)
    yield Def("enum|kw", [Msg("M1", 1), Msg("M2", 9)], pre=E([("class", 1), ("int", 9)]), enumvals=[("class", 1), ("int", 9)], idtype=8)
    yield Def("enum|since", [Msg("M1", 1), Msg("M2", 2)], pre='<fields><enum name="E1" type="uint8" semanticType="messageId"><validValue name="Aa" val="1"/><validValue name="Bb" val="2" sinceVersion="2"/></enum></fields>', enumvals=[("Aa", 1), ("Bb", 2)], idtype=8)
    n = '<fields><enum name="E1" type="uint8" semanticType="messageId"><validValue name="Aa" val="1"/><validValue name="Bb" val="2"/></enum></fields>'
    yield Def("enum|innns", [Msg("M1", 1, ns="n"), Msg("M2", 2, ns="n")], nsextra={"n": n}, enumvals=[("Aa", 1), ("Bb", 2)], idtype=8)
    n = n.replace("uint8", "uint64").replace('val="2"', 'val="0x200000000"')
    yield Def("enum|innns3", [Msg("M1", 1, ns="n"), Msg("M2", 0x200000000, ns="n")], nsextra={"n": n}, enumvals=[("Aa", 1), ("Bb", 0x200000000)], idtype=64)
    yield Def("enum|inns64", [Msg("M1", 1, ns="n"), Msg("M2", 0x200000000, ns="n")], nsextra={"n": ""})
    yield Def("enum|innns2", [Msg("M1", 1, ns=""), Msg("M2", 2, ns="n")], nsextra={"n": n}, enumvals=[("Aa", 1), ("Bb", 0x200000000)], idtype=64)


FAMS = [fam_ids, fam_send, fam_exist, fam_ns, fam_bundle, fam_enum]


def batches():
    out = []
    for f in FAMS:
        for d in f():
            b = vw.Batch(d.key, [("a.xml", d.doc())], list(d.args), main=lambda b, d=d: main_of(d), header="lists.h")
            b.files = {x[2]: x[3] for x in d.bundles if not (d.fails and "no such" in d.fails)}
            b.d = d
            out.append(b)
    return out
