import os, sys, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, check, wire
from gen import lists


def body(c):
    tool = build.build_tools(["commsdsl2comms"])["commsdsl2comms"]
    only = os.environ.get("ONLY")
    bs = lists.batches()
    if only:
        bs = [b for b in bs if only in b.key]
    wire.fixed_hash()
    nums = {"lines": 0, "ids": 0, "msgs": 0}
    per = {}

    def one(ib):
        i, b = ib
        d = os.path.join(c.work, "l%d" % i)
        try:
            r, inc = wire.generate(tool, b, d)
            if b.d.fails:
                return [] if r.rc not in (0, None) and r.rc < 255 + 1 and not r.crashed else [("accepted", "the generator ends with %s although the bundle cannot be formed (%s)" % (r.rc, b.d.fails))], 1
            if r.rc != 0:
                return [("fails", "generator fails: " + (r.err + r.out)[-600:])], 1
            try:
                exe = wire.compile_main(lists.main_of(b.d), inc, header="lists.h")
            except build.BuildError as e:
                return [("compile", "generated code does not compile: " + str(e)[:1500])], 1
        finally:
            shutil.rmtree(d, True)
        p = subprocess.run([exe], capture_output=True, text=True, timeout=120)
        got = p.stdout.split("\n")[:-1]
        want = lists.expected(b.d)
        bad = []
        for w, g in zip(want, got):
            if w != g:
                bad.append((w.split(":")[0] if not w.startswith("frame") else w.split(": ")[0], diff(w, g)))
        if len(got) != len(want):
            bad.append(("end", "the program printed %d of %d lines and ended with %s %s" % (len(got), len(want), p.returncode, p.stderr[-300:])))
        return bad, len(want)

    with ThreadPoolExecutor(8) as ex:
        for b, (bad, n) in zip(bs, ex.map(one, enumerate(bs))):
            fam = b.key.split("|")[0]
            x = per.setdefault(fam, {"definitions": 0, "observations": 0})
            x["definitions"] += 1
            x["observations"] += n
            ids = len(lists.ids_of(b.d))
            k = len(lists.groups(b.d)) * len(lists.nslist(b.d))
            nums["lines"] += n
            nums["ids"] += ids * k * (5 + 5 * 4)
            nums["msgs"] += sum(1 for m in b.d.exist()) * k
            for key, what in bad[:30]:
                c.violation("%s|%s" % (b.key, key), what, {"docs": b.docs, "args": b.args, "files": b.files})
    c.log(len(bs), "definitions")
    c.cov = {"states": nums["msgs"], "transitions": nums["ids"], "traces_validated_against_impl": nums["lines"], "families": per, "exhaustive": True, "samples": [b.key for b in bs[:12]],
             "rule": "a state is (definition, bundle, message); a transition asks one factory or dispatcher of a bundle for one (id, index); every printed list, factory table, dispatch table, alias list and direction option set is one trace compared with the model"}


def diff(w, g):
    a, b = w.split(" "), g.split(" ")
    for x, y in zip(a, b):
        if x != y:
            return "%s expected %s, the generated code gives %s" % (w.split(": ")[0], x, y)
    return "%s expected %s; the generated code gives %s" % (w.split(": ")[0], w[-300:], g[-300:])


check.run("C05", "model_checking", body)
