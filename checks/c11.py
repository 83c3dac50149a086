"""C11: what a generator writes is determined by the schema and the options; it touches nothing but its output."""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, check, iofault, proc
from gen import iozoo, spellbase, zoo, fam

FOREIGN = {"vf_foreign.txt": b"keep\n", ".vf_hidden": b"keep\n", "vf_dir/x.h": b"keep\n"}
ODD = ["a b.xml", "a%20b.xml", "a%2fb.xml", "a#b.xml", "a?b.xml", "a:b.xml", "a&amp;b.xml", "a&b.xml", "a\\b.xml", "a'b.xml", 'a"b.xml', "\u00fc\u4e2d.xml", ".hidden", "noext", "a;b.xml", "$HOME.xml", "a*b.xml", "a@b.xml", "~.xml", "a=b.xml", "x.xml.xml", "a\tb.xml", "--x.xml", "file:x.xml", "a,b.xml", "#^#NAME#$#.xml"]


def put(d, files):
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t)


def perturb():
    src = os.path.join(build.VERIF, "harness/perturb.c")

    def make(tmp):
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-fno-builtin", "-o", tmp, src, "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise build.BuildError(r.stderr)
    return build.cached("so", build.sha(build.compiler_id(), build.fhash(src)), make)


def documents(thorough):
    """(key, {file: text}, options by tool)"""
    seen = set()
    for key, doc, part in spellbase.bases(thorough):
        if doc not in seen and not part:
            seen.add(doc)
            yield key, {"s.xml": doc.encode()}, {}
    yield "io", {"s.xml": iozoo.S1.encode(), "t.xml": iozoo.S2.encode(), "ml": b"A\nsub.B\n"}, {"commsdsl2comms": ["--extra-messages-bundle", "X@ml"], "commsdsl2swig": ["--messages-list", "ml"], "commsdsl2emscripten": ["--messages-list", "ml"]}
    two = [b'<schema name="p%d" endian="little"><fields><int name="f" type="uint8"/>%s</fields><interface name="If%d"/><message name="M%d" id="%d"><ref name="r" field="f"/></message><frame name="Fr%d"><id name="I"><int name="i" type="uint8"/></id><payload name="P"/></frame></schema>' % (i, b'<ref name="q" field="@p1.f"/>' if i == 2 else b"", i, i, i, i) for i in (1, 2)]
    yield "two", {"s.xml": two[0], "t.xml": two[1]}, {t: ["-s"] for t in iozoo.TOOLS}
    many = "".join('<message name="M%03d" id="%d" platforms="%s"><int name="f%d" type="uint8"/><ref name="g" field="F%d"/></message>' % (i * 37 % 60, i * 37 % 60, "+P%d" % (i % 4), i, i % 7) for i in range(60))
    yield "many", {"s.xml": ('<schema name="many" endian="big"><platforms>%s</platforms><fields>%s</fields>%s%s<frame name="Fr"><id name="I"><int name="i" type="uint8"/></id><payload name="P"/></frame></schema>' % (
        "".join('<platform name="P%d"/>' % i for i in range(4)), "".join('<set name="F%d" length="2">%s</set>' % (i, "".join('<bit name="b%d" idx="%d"/>' % (j, j) for j in range(12, 0, -1))) for i in range(7)),
        "".join('<interface name="If%d"><int name="v" type="uint8"/></interface>' % i for i in range(3)), many)).encode()}, {"commsdsl2tools_qt": ["--protocol", "Fr:If1"]}


def variants(tool, files, opts):
    """(label, how the inputs are laid out, arguments, extra environment, ...) as functions of the scratch directory"""
    S = sorted(n for n in files if n.endswith(".xml"))
    C = ["-c", "code"]
    yield "base", dict(args=opts + C + ["-o", "o"] + S)
    yield "again", dict(args=opts + C + ["-o", "o"] + S, twice=True)
    yield "foreign", dict(args=opts + C + ["-o", "o"] + S, foreign=True)
    yield "stale", dict(args=opts + C + ["-o", "o"] + S, stale=True)
    yield "abs", dict(args=[o.replace("@ml", "@{d}/ml") if o != "ml" else "{d}/ml" for o in opts] + ["-c", "{d}/code", "-o", "{d}/o"] + ["{d}/" + s for s in S], cwd="away")
    yield "up", dict(args=[o.replace("@ml", "@../ml") if o != "ml" else "../ml" for o in opts] + ["-c", "../code", "-o", "../o"] + ["../" + s for s in S], cwd="away")
    yield "dots", dict(args=opts + ["-c", "./away/.././code", "-o", "away/../o/."] + ["./away//../" + s for s in S])
    yield "slash", dict(args=opts + ["-c", "code/", "-o", "o/"] + S)
    yield "slashes", dict(args=opts + ["-c", ".//code//", "-o", ".//o//"] + S)
    yield "deep", dict(args=opts + C + ["-o", "q/w/e/o"] + S, out="q/w/e/o")
    yield "oddout", dict(args=opts + C + ["-o", "q w/%20#^#ü$'\"\\ n/o o"] + S, out="q w/%20#^#ü$'\"\\ n/o o")
    yield "oddcode", dict(args=opts + ["-c", "c d/%20#^#ü$'\"\\ n/include"] + ["-o", "o"] + S, code="c d/%20#^#ü$'\"\\ n/include")
    yield "linkout", dict(args=opts + C + ["-o", "lnk"] + S, links={"lnk": "o"})
    yield "linkin", dict(args=opts + ["-c", "lcode", "-o", "o"] + ["l_" + s for s in S], links=dict({"l_" + s: s for s in S}, lcode="code"))
    yield "list", dict(args=opts + C + ["-o", "o", "-i", "lst"], put={"lst": "\n".join(S).encode() + b"\n"})
    yield "prefix", dict(args=opts + C + ["-o", "o", "-i", "lst", "-p", "in"], put={"lst": "\r\n".join(S).encode(), **{"in/" + s: files[s] for s in S}})
    yield "here", dict(args=["-o", "."] + [o.replace("@ml", "@../ml") if o != "ml" else "../ml" for o in opts] + ["-c", "../code"] + ["../" + s for s in S], cwd="o")
    yield "default", dict(args=[o.replace("@ml", "@../ml") if o != "ml" else "../ml" for o in opts] + ["-c", "../code"] + ["../" + s for s in S], cwd="o")
    A = dict(args=opts + C + ["-o", "o"] + S)
    for h in ("up", "down"):
        for f in ("0", "165", "255"):
            if f != "0" or h == "down":
                yield "heap %s %s" % (h, f), dict(A, env={"LD_PRELOAD": "{perturb}", "VF_HEAP": h, "VF_FILL": f, "VF_TIME": "1" if h == "up" else "4102444800", "VF_DIR": h})
    yield "env locale C", dict(A, env={"LC_ALL": "C", "LANG": "C", "TZ": "Asia/Tokyo"})
    yield "env locale tr", dict(A, env={"LC_ALL": "tr_TR.UTF-8", "LANGUAGE": "de", "LC_NUMERIC": "de_DE.UTF-8", "TMPDIR": "/nonexistent"})
    yield "env none", dict(A, env=None)
    yield "name", dict(A, name="/some/where/else")
    yield "umask", dict(A, umask=0o077)
    yield "trace", dict(A, trace=True)
    yield "trace nocode", dict(args=opts + ["-o", "o"] + S, trace=True, nocode=True)
    for i, n in enumerate(ODD):
        for pre in ("", "q %20/"):
            if not n.startswith("-") or pre:
                yield "odd|" + pre + n, dict(args=opts + C + ["-o", "o"] + [pre + n] + S[1:], put={pre + n: files[S[0]]})


def body(c):
    tools = build.build_tools()
    so, pt = iofault.shim(), perturb()
    ops_seen = n = 0
    per, samples = {}, []

    def job(a):
        i, tool, key, files, opts, label, v, code, bad = a
        d = os.path.join(c.work, "j%d" % i)
        os.makedirs(d)
        put(d, files)
        cdir = v.get("code", "code")
        if not v.get("nocode"):
            put(d, {cdir + "/" + k: t for k, t in code.items()})
        for k in ("away", "o") if v.get("cwd") or v.get("links") else ("away",):
            os.makedirs(os.path.join(d, k), exist_ok=True)
        put(d, v.get("put", {}))
        for k, t in v.get("links", {}).items():
            os.symlink(t, os.path.join(d, k))
        out = v.get("out", "o")
        cwd = os.path.join(d, v.get("cwd", ""))
        args = [x.replace("{d}", d) for x in v["args"]]
        fmt = lambda x: x.replace("{perturb}", pt)
        env = v.get("env", {})
        ops = []
        if v.get("foreign"):
            put(os.path.join(d, out), FOREIGN)
        if v.get("stale") or v.get("foreign"):
            r = proc.run(tools[tool], args, cwd)
            o = os.path.join(d, out)
            if v.get("foreign"):
                for w, ds, fs in os.walk(o):
                    put(w, {"vf_more.h": b"keep\n"})
            else:
                for w, ds, fs in os.walk(o):
                    for f in fs:
                        with open(os.path.join(w, f), "ab") as h:
                            h.write(b"stale\n" * 5000)
                        os.utime(os.path.join(w, f), (4102444800, 4102444800))
        before = {k: x for k, x in proc.tree(d).items() if k != out and not k.startswith(out + "/")}
        if v.get("trace"):
            r, ops = iofault.run(so, tools[tool], args, cwd, "/")
        elif env is None:
            p = subprocess.run([tool] + args, executable=tools[tool], cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, env={})
            r = proc.Result(p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"))
        elif v.get("umask"):
            p = subprocess.run([tool] + args, executable=tools[tool], cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, env={"LC_ALL": "C.UTF-8"}, preexec_fn=lambda: os.umask(v["umask"]))
            r = proc.Result(p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"))
        else:
            r = proc.run(tools[tool], args, cwd, env={k: fmt(x) for k, x in env.items()}, name=v.get("name"))
            if v.get("twice"):
                r = proc.run(tools[tool], args, cwd)
        tr = proc.tree(os.path.join(d, out)) if os.path.isdir(os.path.join(d, out)) else {}
        after = {k: x for k, x in proc.tree(d).items() if k != out and not k.startswith(out + "/")}
        par = out
        while "/" in par:                      # the directories leading to the output belong to it
            par = par.rpartition("/")[0]
            after.pop(par, None)
            before.pop(par, None)
        if v.get("foreign"):
            for k, t in list(FOREIGN.items()):
                if tr.pop(k, None) != t:
                    bad.append("%s of the output directory is gone or changed" % k)
            tr.pop("vf_dir", None)
            for k in [k for k in tr if k.endswith("vf_more.h")]:
                if tr.pop(k) != b"keep\n":
                    bad.append("%s of the output directory changed" % k)
        if before != after:
            bad.append("changed outside of the output directory: %s" % proc.diff_trees(before, after, 3))
        files_ = [os.path.realpath(os.path.join(d, s)) for s in files]
        for k, p in ops:
            q = os.path.normpath(p)
            if k in ("openw", "write", "close", "mkdir", "chmod", "rename"):
                if q != d + "/" + out and not q.startswith(d + "/" + out + "/"):
                    bad.append("%s outside of the output directory: %s" % (k, p.replace(d, "<dir>")))
            elif k in ("openr", "probe", "opend"):
                if not (q in files_ or (not v.get("nocode") and (q == d + "/" + cdir or q.startswith(d + "/" + cdir + "/"))) or q == d + "/" + out or q.startswith(d + "/" + out + "/") or (not q.startswith(d + "/") and q.startswith(("/usr/", "/etc/", "/lib/", "/lib64/", "/proc/", "/sys/", "/dev/")))):
                    bad.append("%s is read, which is no input" % p.replace(d, "<dir>"))
        shutil.rmtree(d)
        return tool, key, label, r, tr, bad, args, len(ops)

    todo, groups = [], []
    for key, files, opts in documents(c.thorough):
        for tool in iozoo.TOOLS:
            # custom code: one file of every kind plus files that are only copied
            code = {"own/a.txt": b"a\n", "own/b.h": b"b\n", "CMakeLists.txt.append": b"# c\n", "CMakeLists.txt.prepend": b"# c\n", "include/own.h": b"int i;\n", "zz.bin": bytes(range(256)), "aa/bb/cc/dd.h": b""}
            for label, v in variants(tool, files, opts.get(tool, [])):
                if label.startswith("odd|") and key not in ("mini", "io") and not c.thorough:
                    continue
                if os.environ.get("ONLY") and label != "base" and label != "trace nocode" and os.environ["ONLY"] not in "%s|%s|%s" % (tool, key, label):
                    continue
                todo.append((len(todo), tool, key, files, opts.get(tool, []), label, v, code, []))
    base = {}
    with ThreadPoolExecutor(build.JOBS) as ex:
        for tool, key, label, r, tr, bad, args, k in ex.map(job, todo):
            n += 1
            ops_seen += k
            per[label.partition("|")[0]] = per.get(label.partition("|")[0], 0) + 1
            if label == "base":
                base[tool, key] = tr
                if len(samples) < 20:
                    samples.append("%s %s: %d files" % (tool, key, len(proc.files(tr))))
                if r.rc != 0 or not proc.files(tr):
                    raise Exception("%s %s: %r" % (tool, key, r))
            if r.crashed:
                bad.append("crash: %r" % r)
            elif r.rc != 0:
                bad.append("fails: %s" % (r.err + r.out)[-300:])
            elif label == "trace nocode":
                # without custom code the output is the same up to what is copied from the code directory
                own = {k: x for k, x in base[tool, key].items() if x is not None and not k.startswith(("own/", "aa/", "include/own.h", "zz.bin")) and not k.startswith("CMakeLists")}
                t2 = {k: x for k, x in tr.items() if x is not None and not k.startswith("CMakeLists")}
                if own != t2:
                    bad.append("different output without custom code: %s" % proc.diff_trees(own, t2))
            elif tr != base[tool, key]:
                bad.append("different output: %s" % proc.diff_trees(base[tool, key], tr))
            if bad:
                c.violation("%s|%s|%s" % (tool, key, label), "; ".join(bad[:3]), {"tool": tool, "document": key, "variant": label, "args": args})
    c.log(n, "runs,", ops_seen, "file operations traced")
    c.assumptions = ["the environment is varied by: memory layout and contents, time, directory order, locale, working directory, spelling of paths, name of the executable, state of the output directory"]
    c.cov = {"evaluations": n, "distinct_nontrivial": n - len(base), "rule": "every tool x every example x every variant of the surroundings; non-trivial: compared with another run of the same tool and example", "samples": samples, "variants": per, "operations_traced": ops_seen, "exhaustive": True}


if __name__ == "__main__":
    sys.exit(check.run("C11", "exploration", body))
