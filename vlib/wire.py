"""Generates C++ definitions with the real tool, compiles them together with the harness against mini-COMMS, and compares what they do with the reference codec."""
import hashlib, os, shutil, subprocess
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
from model import cdsl, wire
from . import build, proc

V = build.VERIF
MC = os.path.join(V, "mcomms")
CXX = "clang++"
CLANG = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout.split("\n")[0]
FLAGS = ["-std=c++17", "-O0", "-w", "-isystem", MC, "-I", os.path.join(V, "harness")]


class Batch:
    """one generated definition. docs: [(file name, text)]; cases: [(key, message name, [operation lists])]"""
    def __init__(self, key, docs, args=(), ns=None, iface="Message", forced=None, min_remote=0, verdep=True, header="wire.h", main=None, defs=()):
        self.key, self.docs, self.args, self.ns, self.iface, self.forced, self.min_remote, self.verdep, self.header, self.main, self.defs = key, docs, list(args), ns, iface, forced, min_remote, verdep, header, main, list(defs)
        self.cases = []

    def proto(self):
        p = cdsl.Protocol("-s" in self.args)
        p.load([t.encode() if isinstance(t, str) else t for _, t in self.docs])
        return p


def generate(tool, b, d):
    os.makedirs(d)
    for n, t in b.docs:
        with open(os.path.join(d, n), "wb") as f:
            f.write(t if isinstance(t, bytes) else t.encode())
    for n, t in getattr(b, "files", {}).items():
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    r = proc.run(tool, b.args + ["-o", os.path.join(d, "out")] + [n for n, _ in b.docs], d)
    return r, os.path.join(d, "out", "include")


def includes_hash(inc):
    return build.tree_hash(inc)


_mch = {}
def fixed_hash():
    if not _mch:
        _mch["h"] = build.sha(build.compiler_id(), build.tree_hash(MC), build.tree_hash(os.path.join(V, "harness")))
    return _mch["h"]


def main_of(b, msgs):
    ns = b.ns or "s"
    return "".join(['#include "%s"\n' % b.header, '#include "%s/%s.h"\n' % (ns, b.iface)] + ['#include "%s/message/%s.h"\n' % (ns, m) for m in msgs] + [
        "using I = %s::%s<>;\n" % (ns, b.iface),
        "int main() { return hw::loop({%s}); }\n" % ", ".join("hw::mk<%s::message::%s<I> >" % (ns, m) for m in msgs)])


def pch(header, fl):
    """precompiled harness header"""
    k = build.sha("pch", CLANG, header, fixed_hash(), " ".join(fl), V)
    def make(tmp):
        r = subprocess.run([CXX] + fl + ["-x", "c++-header", "-Xclang", "-fno-pch-timestamp", "-o", tmp, os.path.join(V, "harness", header)], capture_output=True, text=True)
        if r.returncode:
            raise build.BuildError(r.stderr[-1500:])
    return build.cached("pch", k, make)


def compile_main(src, inc, extra=(), flags=None, key="", header="wire.h", defs=()):
    """cached by the content of everything it is made of"""
    fl = (flags or FLAGS) + list(defs)
    if not flags:
        fl += ["-include-pch", pch(header, list(fl)), "-Xclang", "-fno-validate-pch"]
    k = build.sha("wire", fixed_hash(), includes_hash(inc), src, " ".join(fl), key, *[build.fhash(x) for x in extra])
    def make(tmp):
        s = tmp + ".cpp"
        with open(s, "w") as f:
            f.write(src)
        try:
            r = subprocess.run([CXX] + fl + ["-I", inc, "-o", tmp, s] + list(extra), capture_output=True, text=True, errors="replace")
        finally:
            os.unlink(s)
        if r.returncode:
            raise build.BuildError("\n".join([l for l in r.stderr.split("\n") if "error" in l][:6])[:2000] or r.stderr[-1500:])
    return build.cached("wire", k, make)


def run_lines(exe, lines, timeout=120):
    try:
        r = subprocess.run([exe], input="".join(lines), capture_output=True, text=True, timeout=timeout, errors="replace")
        return r.stdout.split("\n")[:-1], r.returncode, r.stderr[-400:]
    except subprocess.TimeoutExpired as e:
        return (e.stdout or b"").decode(errors="replace").split("\n")[:-1], "timeout", ""


def expect(env, msg, ops):
    """(operations actually performed, expected output tokens)"""
    r = wire.Run(env, msg)
    done, toks = [], []
    for o in ops:
        try:
            t = r.op(o)
        except wire.Unspecified:
            break
        done.append(o)
        if t is not None:
            toks.append(t)
        if r.dead:
            break
    return done, toks


def same(toks, out):
    out = out.split(" ") if out else []
    if len(out) != len(toks):
        return False
    return all(a == b or (a[0] == b[0] == "S" and answers(a, b)) or (a in ("C?", "F?") and b[0] == a[0]) or (a == "R!" and b[0] == "R" and b != "R0" and ":" not in b) for a, b in zip(toks, out))


def answers(a, b):
    """names: every answer is one of the acceptable ones"""
    x, y = a[1:].split(";"), b[1:].split(";")
    return len(x) == len(y) and all(q in p.split("|") for p, q in zip(x, y))


def env_of(b):
    p = b.proto()
    ifc, allm = None, {}
    for s in p.schemas[-1:]:
        for _, n in sorted(s.namespaces.items()):
            for i in n.all_interfaces():
                if i.name == b.iface:
                    ifc = i
            allm.update(n.messages)
    return wire.Env(p, ifc, b.forced, b.min_remote, b.verdep), allm


def explore(a):
    """worker: the whole exploration of one batch; returns ((executions, distinct outcomes, model states dumped, operations), failures)"""
    b, exe, gen, limit = a
    env, allm = env_of(b)
    lines, exp, keys, seen = [], [], [], set()
    for idx, (key, name, extra) in enumerate(b.cases):
        m = allm[name]
        for ops in gen(env, m, extra):
            done, toks = expect(env, m, ops)
            if not toks:
                continue
            l = "%d %s\n" % (idx, " ".join(done))
            lines.append(l)
            exp.append(toks)
            keys.append(key)
    out, rc, err = run_lines(exe, lines)
    bad = []
    for l, t, k, o in zip(lines, exp, keys, out):
        seen.add((k, o))
        if not same(t, o):
            bad.append((k, l.strip(), " ".join(t), o))
    if len(out) < len(lines):
        i = len(out)
        bad.append((keys[i], lines[i].strip(), " ".join(exp[i]), "the program ended (%s) %s" % (rc, err)))
    states = len({(k, t) for k, ts in zip(keys, exp) for t in ts if t[0] == "D"})
    trans = sum(l.count(" ") for l in lines)
    return (len(lines), len(seen), states, trans), bad[:limit]


def run(c, tool, batches, gen, jobs=8, explore=None):
    explore = explore or globals()["explore"]
    """generates, compiles and explores all batches; failures become violations"""
    fixed_hash()
    sums = [0, 0, 0, 0]
    def prep(ib):
        i, b = ib
        d = os.path.join(c.work, "w%s_%d" % (b.key.replace("/", "_").replace("|", "_")[:40], i))
        r, inc = generate(tool, b, d)
        if r.rc != 0:
            shutil.rmtree(d)
            return b, None, "generator fails: " + (r.err + r.out)[-600:]
        src = b.main(b) if b.main else main_of(b, [x[1] for x in b.cases])
        try:
            exe = compile_main(src, inc, header=b.header, defs=b.defs)
        except build.BuildError as e:
            shutil.rmtree(d)
            return b, None, "generated code does not compile: " + str(e)[:1500]
        shutil.rmtree(d)
        return b, exe, None
    todo = []
    with ThreadPoolExecutor(jobs) as ex:
        for b, exe, err in ex.map(prep, enumerate(batches)):
            if err:
                c.violation("batch|" + b.key, err, {"args": b.args, "docs": b.docs})
            else:
                todo.append((b, exe))
    c.log(len(todo), "definitions generated and compiled")
    per = {}
    with ProcessPoolExecutor(jobs) as ex:
        for (b, exe), (nums, bad) in zip(todo, ex.map(explore, [(b, exe, gen, 40) for b, exe in todo])):
            sums = [x + y for x, y in zip(sums, nums)]
            fam = b.key.split("|")[0]
            x = per.setdefault(fam, {"definitions": 0, "messages": 0, "executions": 0})
            x["definitions"] += 1
            x["messages"] += len(b.cases)
            x["executions"] += nums[0]
            for k, l, want, got in bad:
                c.violation("%s|%s" % (k, l), "expected %s; the generated code gives %s" % (want[:700], got[:700]), {"case": k, "input": l, "docs": b.docs, "args": b.args})
    return {"states": sums[2], "transitions": sums[3], "traces_validated_against_impl": sums[0], "distinct_outcomes": sums[1], "families": per,
            "samples": [b.key + ": " + ", ".join(k.split("|")[-1] for k, _, _ in b.cases[:3]) for b, _ in todo[:12]], "exhaustive": True,
            "rule": "a state is a distinct (message, complete value of all fields) of the reference codec; a transition is one operation performed on it; every enumerated operation sequence is one trace, replayed on the generated C++ code with all outputs compared"}


def prebuild(tool, batches, work, jobs=8):
    def one(ib):
        i, b = ib
        d = os.path.join(work, "p%d" % i)
        try:
            r, inc = generate(tool, b, d)
            if r.rc == 0:
                compile_main(b.main(b) if b.main else main_of(b, [x[1] for x in b.cases]), inc, header=b.header, defs=b.defs)
        except build.BuildError:
            pass
        finally:
            shutil.rmtree(d, True)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, enumerate(batches)))
