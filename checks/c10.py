import os, sys, json
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, check, parsecmp, proc
from gen import spell, spellbase


HEADS = ("", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\n<!-- a comment -->\n<?pi x?>\n")


def spread(root, rule, part):
    """(label, [texts])"""
    if rule == "whole":
        yield "base", [spell.text(root)]
        for label, r in spell.alls(root):
            yield label, [spell.text(r)]
        for label, rs in spell.files(root):
            yield label, [spell.text(x) for x in rs]
        for i, h in enumerate(HEADS):
            yield "head|%d" % i, [spell.text(root, h)]
    else:
        for label, r in spell.singles(root, {rule}, "message" if part else None):
            yield label, [spell.text(r)]


def work(a):
    drv, wd, n, key, doc, whole_only, rule, only = a
    root = spell.parse(doc)
    tool = parsecmp.tool_of
    bad, cnt, base, sample = [], 0, None, []

    def run(part):
        lines, paths = [], []
        for i, (label, docs) in enumerate(part):
            ps = []
            for j, d in enumerate(docs):
                p = os.path.join(wd, "p%d_%d_%d.xml" % (n, i, j))
                with open(p, "w", encoding="utf-8") as f:
                    f.write(d)
                ps.append(p)
            paths += ps
            lines.append("\t\t%s\n" % "\t".join(ps))
        res = tool(drv, lines)
        for p in paths:
            os.unlink(p)
        return [json.dumps(r.get("schemas"), sort_keys=True) if r.get("ok") else "fails: %s" % (r.get("crash") or [l[1] for l in r.get("log", []) if l[0] >= 3][:1]) for r in res]

    base = run([("base", [spell.text(root)])])[0]
    if base.startswith("fails"):
        return [("base", "base definition is not accepted: %s" % base, [spell.text(root)])], 0, []
    for part in parsecmp.chunks((x for x in spread(root, rule, whole_only) if not only or only in key + "|" + x[0]), 100):
        cnt += len(part)
        sample.append(part[0][0])
        for (label, docs), r in zip(part, run(part)):
            if r != base:
                d = r if r.startswith("fails") else "; ".join(parsecmp.diff(json.loads(r), json.loads(base))[:3]).replace("schema says", "other spelling")
                bad.append((label, d[:500], docs))
    return bad, cnt, sample


def body(c):
    built = build.build_tools(["commsdsl2comms", "commsdsl2c"], ["drivers/dump.cpp"])
    drv = built["drivers/dump.cpp"]
    only = os.environ.get("ONLY")
    per, n, samples = {}, 0, []
    bases = list(spellbase.bases(c.thorough))
    jobs = [(key, doc, part, rule) for key, doc, part in bases for rule in (["whole"] if part == "whole" else list(spell.RULES) + ["whole"] if not part else list(spell.RULES))]
    jobs.sort(key=lambda x: -len(x[1]) * (1 if x[2] else 10 if x[3] in ("noise", "children") else 2))
    with ProcessPoolExecutor(8) as ex:
        for (key, doc, part, rule), (bad, cnt, sample) in zip(jobs, ex.map(work, ((drv, c.work, i) + j + (only,) for i, j in enumerate(jobs)))):
            per[rule] = per.get(rule, 0) + cnt
            n += cnt
            samples += ["%s|%s" % (key, x) for x in sample[:1]]
            for label, d, docs in bad:
                c.violation("%s|%s" % (key, label), d, {"docs": docs, "base": doc})
    c.log(n, "spellings")
    out = [((key, label, docs), None) for key, doc, _ in bases if key in spellbase.GENERATE or c.thorough and not _ for label, docs in spread(spell.parse(doc), "whole", None)]
    # the same files from the generators
    gens = [x for x, _ in out if not only or only in x[0] + "|" + x[1] or x[1] == "base"]
    trees, g = {}, 0

    def gen(ix):
        i, (key, label, docs) = ix
        d = os.path.join(c.work, "g%d" % i)
        os.makedirs(d)
        for j, t in enumerate(docs):
            with open(os.path.join(d, "s%d.xml" % j), "w", encoding="utf-8") as f:
                f.write(t)
        r = {}
        for t in ("commsdsl2comms", "commsdsl2c"):
            p = proc.run(built[t], ["-q", "-o", os.path.join(d, t)] + ["s%d.xml" % j for j in range(len(docs))], d)
            r[t] = (p.rc, {k: hash(v) for k, v in proc.tree(os.path.join(d, t)).items()} if p.rc == 0 else p.err[-300:])
        import shutil
        shutil.rmtree(d)
        return r

    with ThreadPoolExecutor(8) as ex:
        rs = list(zip(gens, ex.map(gen, enumerate(gens))))
    for (key, label, docs), r in rs:
        if label == "base":
            trees[key] = r
    for (key, label, docs), r in rs:
        g += 1
        for t in r:
            if r[t] != trees[key][t]:
                a, b = r[t][1], trees[key][t][1]
                diff = [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)][:4] if isinstance(a, dict) and isinstance(b, dict) else (a, b)
                c.violation("%s|%s|%s" % (key, label, t), "generated output differs: %s" % (diff,), {"docs": docs})
    c.log(g, "generated")
    c.cov = {"evaluations": n + 2 * g, "distinct_nontrivial": n, "families": per, "generated": g, "exhaustive": True, "samples": samples[:20],
             "rule": "every rewriting rule (attribute to child, number notation, order, comments, quoting, grouping, file split, order of definitions) applied at every place of every base definition, and everywhere at once: the parsed model "
             "dumped from the real parser has to be the same as for the base definition; for the global rewritings the generated trees too"}


check.run("C10", "exploration", body)
