"""Runs cases through the real parser (dump driver) and the reference model."""
import json, os, re, subprocess
from concurrent.futures import ProcessPoolExecutor
from model import cdsl


def diff(a, b, path=''):
    if type(a) != type(b):
        return ['%s: tool %r, schema says %r' % (path, a, b)]
    if isinstance(a, dict):
        out = []
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                out.append('%s.%s missing in %s' % (path, k, 'tool' if k not in a else 'model'))
            else:
                out += diff(a[k], b[k], path + '.' + k)
        return out
    if isinstance(a, list):
        if len(a) != len(b):
            return ['%s: length %d, schema says %d: %s | %s' % (path, len(a), len(b), str(a)[:200], str(b)[:200])]
        out = []
        for i, (x, y) in enumerate(zip(a, b)):
            out += diff(x, y, path + '[%d]' % i)
        return out
    return [] if a == b else ['%s: tool %r, schema says %r' % (path, a, b)]


def model_of(flags, prefixes, docs):
    """(accepted, dump, has warnings, reason)"""
    p = cdsl.Protocol("m" in flags, prefixes)
    try:
        p.load([d.encode() if isinstance(d, str) else d for d in docs])
    except cdsl.Reject as e:
        return False, None, bool(p.warnings), str(e)
    return True, json.loads(json.dumps(p.dump())), bool(p.warnings), ""


def tool_of(drv, lines, timeout=60):
    """runs the driver over the lines; a line that kills it yields {'crash': ...}"""
    res, i = [], 0
    while i < len(lines):
        try:
            r = subprocess.run([drv], input="".join(lines[i:]), capture_output=True, text=True, timeout=timeout, errors="replace")
            out = [json.loads(l) for l in r.stdout.split("\n")[:-1] if l]
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired as e:
            o = e.stdout or b""
            out = [json.loads(l) for l in o.decode(errors="replace").split("\n")[:-1] if l]
            rc, err = "timeout", ""
            timeout = 10
        res += out
        i += len(out)
        if i < len(lines):
            if rc == 0:
                raise RuntimeError("driver stopped early")
            res.append({"crash": str(rc), "stderr": err[-400:]})
            i += 1
    return res


def compare(case, t, check_warn=True, verdict=None):
    """list of differences"""
    ok, dump, warn, why = verdict or model_of(*case[1:])
    if "crash" in t:
        return ["crash %s: %s" % (t["crash"], t["stderr"].strip()[-300:])], ok
    if t["ok"] != ok:
        return ["tool %s, schema is %s" % ("accepts" if t["ok"] else "rejects: " + (t["log"][-1][1] if t["log"] else ""), "legal" if ok else "illegal: " + why)], ok
    if not ok:
        return ([] if any(l[0] >= 3 for l in t["log"]) else ["rejected without an error message"]), ok
    d = diff(t["schemas"], dump)[:4]
    if any(l[0] >= 3 for l in t["log"]):
        d.append("accepted with an error message: %s" % t["log"][:2])
    if check_warn and any(l[0] == 2 for l in t["log"]) != warn:
        d.append("warning %s" % (t["log"][:1] if not warn else "missing"))
    return d, ok


def _work(a):
    drv, wd, n, cases = a
    lines = []
    for i, (key, flags, prefixes, docs) in enumerate(cases):
        fs = []
        for j, d in enumerate(docs):
            p = os.path.join(wd, "c%d_%d_%d.xml" % (n, i, j))
            with open(p, "wb") as f:
                f.write(d.encode() if isinstance(d, str) else d)
            fs.append(p)
        lines.append("%s\t%s\t%s\n" % (flags, ",".join(prefixes), "\t".join(fs)))
    res = tool_of(drv, lines)
    out, acc, why = [], 0, {}
    for c, t in zip(cases, res):
        v = model_of(*c[1:])
        d, ok = compare(c, t, verdict=v)
        acc += ok
        if ok:
            why.setdefault("legal:" + re.sub(r"=[^+|]*", "", c[0]), c)
        else:
            why.setdefault(re.sub(r"'[^']*'|[-0-9]+|\S*/\S*", "*", v[3])[:60], c)
        if d:
            out.append((c, d))
    for l in lines:
        for p in l[:-1].split("\t")[2:]:
            os.unlink(p)
    return len(cases), acc, out, why


def chunks(it, n):
    b = []
    for x in it:
        b.append(x)
        if len(b) == n:
            yield b
            b = []
    if b:
        yield b


def run(drv, wd, cases, jobs=8, n=400):
    """yields (number of cases, number accepted, [(case, differences)], {reason for being illegal: first case})"""
    with ProcessPoolExecutor(jobs) as ex:
        yield from ex.map(_work, ((drv, wd, i, c) for i, c in enumerate(chunks(cases, n))))
