"""Compiles whole generated definitions against mini-COMMS: every header included and every class template in them used."""
import glob, os
from . import build

MC = os.path.join(build.VERIF, "mcomms")
WARN = ["-Wall", "-Wextra", "-Wno-unused-local-typedefs"]
CLANG = ["-std=c++17", "-fsyntax-only", "-ferror-limit=8"] + WARN + ["-Wpre-c++14-compat", "-Wpre-c++17-compat", "-isystem", MC]
GCC = ["-std=c++17", "-fsyntax-only", "-fmax-errors=8"] + WARN + ["-isystem", MC]

USE = r'''
#include <cstdint>
#include <tuple>
namespace cu
{
template <typename F> void field()
{
    F f;
    const std::uint8_t in[8] = {0};
    std::uint8_t out[64] = {0};
    const std::uint8_t* r = in;
    std::uint8_t* w = out;
    f.refresh();
    static_cast<void>(f.read(r, sizeof(in)));
    static_cast<void>(f.write(w, sizeof(out)));
    static_cast<void>(f.valid());
    static_cast<void>(f.length());
    static_cast<void>(F::name());
    F g = f;
    static_cast<void>(g == f);
}
template <typename M> void message()
{
    M m;
    const std::uint8_t in[8] = {0};
    std::uint8_t out[64] = {0};
    const std::uint8_t* r = in;
    std::uint8_t* w = out;
    m.doRefresh();
    static_cast<void>(m.doRead(r, sizeof(in)));
    static_cast<void>(m.doWrite(w, sizeof(out)));
    static_cast<void>(m.doValid());
    static_cast<void>(m.doLength());
    static_cast<void>(M::doName());
    static_cast<void>(M::doGetId());
    static_cast<void>(m.fields());
}
template <typename F, typename M> void frame()
{
    F f;
    const std::uint8_t in[8] = {0};
    std::uint8_t out[64] = {0};
    const std::uint8_t* r = in;
    std::uint8_t* w = out;
    typename F::MsgPtr p;
    static_cast<void>(f.read(p, r, sizeof(in)));
    M m;
    static_cast<void>(f.write(m, w, sizeof(out)));
}
}
'''


def headers(inc):
    return sorted(os.path.relpath(h, inc) for h in glob.glob(inc + "/**/*.h", recursive=True))


def classes(hs, kind):
    out = []
    for h in hs:
        p = h[:-2].split("/")
        if len(p) > 2 and p[-2] == kind and not p[-1].endswith("Common") and p[-1] != "FieldBase":
            out.append("::".join(p))
    return out


def main_of(inc, main, opts=None, iface="Message", only=None):
    """one translation unit using everything"""
    hs = headers(inc)
    q = main.replace("/", "::")
    have = {h.split("/")[-1][:-2] for h in hs if "/options/" in h and h.startswith(main + "/options/")}
    others = sorted({h.split("/options/")[0] for h in hs if h.endswith("/options/DefaultOptions.h")} - {main})
    opts = opts or [o for o in ("DefaultOptions", "ClientDefaultOptions", "ServerDefaultOptions", "DataViewDefaultOptions", "BareMetalDefaultOptions", "AllMessagesDynMemMsgFactoryDefaultOptions") if o in have and all("%s/options/%s.h" % (x, o) in hs for x in others)]
    s = "".join('#include "%s"\n' % h for h in hs) + USE
    if iface is None:
        # the first interface; messages do not need one of the definition
        iface = next((h[:-2].split("/")[-1] for h in hs if h.startswith(main + "/") and h.count("/") == main.count("/") + 1 and h[:-2] + "Common.h" in hs or h == main + "/Message.h"), None)
    it = "%s::%s" % (q, iface) if iface else "comms::Message"
    s += "using I = %s<comms::option::app::IdInfoInterface, comms::option::app::ReadIterator<const std::uint8_t*>, comms::option::app::WriteIterator<std::uint8_t*>, comms::option::app::LengthInfoInterface, comms::option::app::ValidCheckInterface, comms::option::app::RefreshInterface, comms::option::app::NameInterface>;\n" % it
    body = []
    ms, fs, fr = classes(hs, "message"), classes(hs, "field"), classes(hs, "frame")
    for o in opts:
        n = "%s::options::%s" % (q, o)
        if others:
            # the options of all the schemas are combined
            alln = others + [main]
            def nest(o, n):
                for x in alln:
                    n = "%s::options::%s%s" % (x.replace("/", "::"), o, "T<%s>" % n if n else "")
                return n
            n = nest("DefaultOptions", "")
            if o != "DefaultOptions":
                n = nest(o, n)
        o = n
        body += ["cu::message<%s<I, %s> >();" % (m, o) for m in ms]
        body += ["cu::field<%s<%s> >();" % (f, o) for f in fs]
        for f in fr if ms else ():
            n = f[:f.rindex("::frame::")]
            body.append("cu::frame<%s<I, %s::input::AllMessages<I, %s>, %s>, %s<I, %s> >();" % (f, n, o, o, ms[0], o))
    return s + "int main()\n{\n" + "".join("    %s\n" % b for b in body) + "}\n"


def find_main(hs):
    """directory of the main namespace: the one the options of which are not for another schema"""
    ds = [h[:-len("/options/DefaultOptions.h")] for h in hs if h.endswith("/options/DefaultOptions.h")]
    with_ifc = [d for d in ds if d + "/Message.h" in hs or any(h.startswith(d + "/message/") or h.startswith(d + "/frame/") for h in hs)]
    return (with_ifc or ds)[-1]


def run(comp, src, inc):
    import subprocess
    cmd = (["clang++"] + CLANG) if comp == "clang" else (["g++"] + GCC)
    r = subprocess.run(cmd + ["-I", inc, src], capture_output=True, text=True, errors="replace")
    return r.returncode, [l for l in r.stderr.split("\n") if "error:" in l or "warning:" in l]


def compile_tree(inc, what, comps):
    """([(key, text)], number of compilations, number of classes used)"""
    hs = headers(inc)
    bad = []
    if what == "alone":
        srcs = [(h, '#include "%s"\n' % h) for h in hs]
    else:
        main = find_main(hs)
        srcs = [("all", main_of(inc, main, iface=None))]
    n = 0
    for h, s in srcs:
        p = os.path.join(inc, "..", "unit.cpp")
        with open(p, "w") as f:
            f.write(s)
        for comp in comps:
            n += 1
            rc, diag = run(comp, p, inc)
            if rc or diag:
                bad.append(("%s|%s" % (comp, h), "%s: %s" % ("does not compile" if rc else "compiles with warnings", " ## ".join(x.replace(inc, "") for x in diag[:5])[:1500])))
    return bad, n, s.count("cu::") if what == "all" else len(srcs)


def options_tree(inc, id_layers, docs):
    """every alias of every options header against the class at its path"""
    from . import opts
    hs = headers(inc)
    main = find_main(hs)
    files = {}
    for h in hs:
        if h.startswith(main + "/options/") and h.count("/") == main.count("/") + 2:
            with open(os.path.join(inc, h)) as f:
                files[h.split("/")[-1][:-2]] = f.read()
    s, n = opts.unit(files, main, hs, "comms::Message<comms::option::app::IdInfoInterface>", id_layers)
    p = os.path.join(inc, "..", "opts.cpp")
    with open(p, "w") as f:
        f.write(s)
    rc, diag = run("clang", p, inc)
    bad = []
    if rc:
        bad.append(("clang|options", " ## ".join(x.replace(inc, "") for x in diag[:6])[:1500]))
    lack = sorted(".".join(x) for x in opts.expected(docs) - {tuple(p) for _, _, p in opts.leaves(files["DefaultOptions"])})
    if lack:
        bad.append(("missing", "nothing to customise in the options: %s" % " ".join(lack[:10])))
    return bad, 1, n
