import os, re, sys, json
from concurrent.futures import ProcessPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, check, parsecmp, proc
from gen import spell, reuse


def work(a):
    drv, gens, wd, n, part = a
    lines, paths = [], []
    txt = lambda d: d if isinstance(d, str) else tuple(map(txt, d)) if isinstance(d, tuple) else spell.text(d)
    part = [(k, txt(x), txt(y)) for k, x, y in part]
    for i, (key, x, y) in enumerate(part):
        for j, d in enumerate((x, y)):
            p = os.path.join(wd, "q%d_%d_%d.xml" % (n, i, j))
            ps = [p]
            if isinstance(d, tuple):
                ps = [p[:-4] + "o.xml", p]
            for q, t in zip(ps, d if isinstance(d, tuple) else (d,)):
                with open(q, "w", encoding="utf-8") as f:
                    f.write(t)
            paths.append(p)
            lines.append("%s\t\t%s\n" % ("m" if len(ps) > 1 else "", "\t".join(ps)))
    res = parsecmp.tool_of(drv, lines)
    bad, same, gen = [], 0, 0
    why = lambda r: "crash %s" % r["stderr"][-200:] if "crash" in r else [l[1].split(": ", 1)[-1] for l in r["log"] if l[0] >= 3][:1]
    for i, (key, x, y) in enumerate(part):
        ra, rb = res[2 * i], res[2 * i + 1]
        if not rb.get("ok"):
            if ra.get("ok") or "crash" in ra or "crash" in rb:
                bad.append((key, "accepted although the definition written out is not: %s" % why(rb) if ra.get("ok") else "%s %s" % (why(ra), why(rb)), x, y))
            continue
        if not ra.get("ok"):
            bad.append((key, "not accepted, the definition written out is: %s" % why(ra), x, y))
            continue
        same += 1
        d = parsecmp.diff(ra["schemas"], rb["schemas"])
        if key.startswith("removed|"):
            # what is inside of what is there since a later version than itself
            d = [x for x in d if not re.search(r"(\.since|bits\[\d+\]\[2\]): tool 0", x)]
        if key.startswith("schemas|"):
            d = [x for x in d if not re.search(r"\.ext0?: tool", x)]
        d = d[:3]
        if d:
            bad.append((key, "; ".join(d).replace("schema says", "written out")[:500], x, y))
            continue
        if reuse_generates(key):
            gen += 1
            for name, tool in gens.items():
                t = []
                for j in (0, 1):
                    o = os.path.join(wd, "o%d" % n)
                    import shutil
                    shutil.rmtree(o, True)
                    # both have the same name
                    s = os.path.join(wd, "n%d" % n)
                    os.makedirs(s, exist_ok=True)
                    shutil.copy(paths[2 * i + j], os.path.join(s, "s.xml"))
                    r = proc.run(tool, ["-q", "-o", o, "s.xml"], s)
                    t.append((r.rc, proc.tree(o) if r.rc == 0 else {}, r.err))
                    shutil.rmtree(o, True)
                if t[0][0] != t[1][0]:
                    bad.append((key + "|" + name, "generator ends with %s, with %s for the definition written out: %s" % (t[0][0], t[1][0], (t[0][2] + t[1][2])[:300]), x, y))
                elif t[0][1] != t[1][1]:
                    bad.append((key + "|" + name, "generated: " + "; ".join(proc.diff_trees(t[0][1], t[1][1]))[:500], x, y))
    for p in paths:
        os.unlink(p)
        if os.path.exists(p[:-4] + "o.xml"):
            os.unlink(p[:-4] + "o.xml")
    return len(part), same, gen, bad


def reuse_generates(key):
    k = key.split("|")
    return k[0] == "inside" and k[2] == "None" or k[0] in ("field", "replace", "message", "copy", "value", "interface", "removed") and (k[0] != "field" or k[2] in ("global", "message")) or key.endswith("|ns")


def body(c):
    built = build.build_tools(["commsdsl2comms", "commsdsl2c"], ["drivers/dump.cpp"])
    only = os.environ.get("ONLY")
    per, samples, tot = {}, [], [0, 0, 0]
    for name, f in reuse.FAMILIES.items():
        p = [0, 0, 0]
        with ProcessPoolExecutor(8) as ex:
            parts = list(parsecmp.chunks((x for x in f() if not only or only in x[0]), 60))
            samples += [x[0][0] for x in parts[:3]]
            for n, same, gen, bad in ex.map(work, ((built["drivers/dump.cpp"], {k: built[k] for k in ("commsdsl2comms",) + (("commsdsl2c",) if c.thorough else ())}, c.work, i, q) for i, q in enumerate(parts))):
                for i, v in enumerate((n, same, gen)):
                    p[i] += v
                    tot[i] += v
                for key, d, x, y in bad:
                    c.violation(key, d, {"reusing": x, "written out": y})
        per[name] = {"pairs": p[0], "legal": p[1], "generated": p[2]}
        c.log(name, p)
    c.cov = {"evaluations": 2 * tot[0] + 2 * tot[2], "distinct_nontrivial": tot[1], "families": per, "exhaustive": True, "samples": samples[:20],
             "rule": "every pair (definition with reuse, replace, copyFieldsFrom or named values; the same written out) of the families: both accepted or both rejected, equal parsed models, byte-identical generated trees"}


check.run("C09", "exploration", body)
