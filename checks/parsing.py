"""Exhaustive comparison of the real parser with the reference interpreter over every schema of the families (C07, C08)."""
import glob, os
from vlib import build, parsecmp
from gen import fam


def repo_schemas():
    """every schema of the repository's own tests, as one more family"""
    root = build.REPO
    for p in sorted(glob.glob(os.path.join(root, "app/*/test/*/*.xml")) + glob.glob(os.path.join(root, "lib/test/**/*.xml"), recursive=True) + glob.glob(os.path.join(root, "app/*/test/**/*.xml"), recursive=True)):
        try:
            with open(p, "rb") as f:
                yield ("repo|" + os.path.relpath(p, root), "m", [], [f.read()])
        except OSError:
            pass


def families(thorough):
    f = dict(fam.FAMILIES)
    f["repository"] = repo_schemas
    if thorough:
        f["pairs"] = lambda: fam.pairs(n=3)
        f["frames"] = lambda: fam.frames(maxn=4)
    return f


def explore(c, wanted):
    """wanted(kind) selects which kinds of difference this property owns: 'differs', 'rejects legal', 'accepts illegal', 'crash', 'no message', 'warning'"""
    drv = build.build_tools([], ["drivers/dump.cpp"])["drivers/dump.cpp"]
    total = accepted = 0
    per, samples, reasons = {}, [], {}
    for name, gen in families(c.thorough).items():
        n = a = 0
        for cnt, acc, bad, why in parsecmp.run(drv, c.work, gen()):
            n += cnt
            a += acc
            for k, v in why.items():
                reasons.setdefault(k, v)
            for case, diffs in bad:
                k = kind(diffs[0])
                if wanted(k):
                    c.violation(case[0], "; ".join(diffs)[:600], {"flags": case[1], "prefixes": case[2], "schemas": [d if isinstance(d, str) else d.decode("utf-8", "replace") for d in case[3]], "differences": diffs})
        per[name] = {"schemas": n, "legal": a}
        total += n
        accepted += a
        c.log(name, n, "schemas", a, "legal")
        first = next(iter(gen()), None)
        if first:
            samples.append(first[0])
    return total, accepted, per, samples, reasons


def kind(d):
    if d.startswith("crash"):
        return "crash"
    if d.startswith("tool accepts"):
        return "accepts illegal"
    if d.startswith("tool rejects"):
        return "rejects legal"
    if d.startswith("rejected without"):
        return "no message"
    if d.startswith("warning"):
        return "warning"
    return "differs"
