"""C12: every single failing file operation of a generation run is noticed; a run that reports success has written everything."""
import os, resource, shutil, signal, subprocess, sys, threading, queue
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, check, iofault, proc
from gen import iozoo

# how an operation of a kind may fail; the last element says whether success is acceptable if the output is complete all the same
MODES = {
    "openw": (("EACCES", False), ("ENOSPC", False)),
    "write": (("ENOSPC", False), ("PARTIAL", False), ("SHORT", True)),
    "close": (("ENOSPC", False),),
    "mkdir": (("EACCES", False),),
    "chmod": (("EIO", True),),
    "rename": (("EIO", False),),
    "openr": (("EACCES", True),),
    "read": (("EIO", False),),
    "opend": (("EACCES", True),),
    "readd": (("EIO", True),),
    "stat": (("EACCES", True), ("EIO", True)),
}
REPLACE = ".replace"


def put(d, files):
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(t)


def body(c):
    tools = build.build_tools()
    so = iofault.shim()
    base = iozoo.inputs()
    scen = []          # (name, tool, files, args)
    for t in iozoo.TOOLS:
        d = os.path.join(c.work, "probe_" + t)
        put(d, dict(base, **{"code/extra/a.txt": b"extra\n"}))
        r, ops = iofault.run(so, tools[t], iozoo.args(t, ["-c", "code"]), d, d)
        if r.rc != 0:
            raise Exception("%s does not accept the example: %r" % (t, r))
        probed = sorted({p[1:] for k, p in ops if k == "probe" and p.startswith("/code/")})
        gen = sorted(k for k in proc.files(proc.tree(d + "/o")))
        shutil.rmtree(d)
        code = {p: ("// vf %s\n" % p).encode() for p in probed if not p.endswith(REPLACE)}
        code["code/extra/a.txt"] = b"extra\n"
        code["code/extra/b/c.bin"] = bytes(range(256)) * 64
        repl = {p: ("// vf %s\n" % p).encode() for p in probed if p.endswith(REPLACE)}
        repl["code/x.txt"] = b"x\n"
        repl["code/include/s/own.h"] = b"namespace s { int own; }\n"
        scen.append(("plain", t, base, iozoo.args(t)))
        # files for the public/protected/private/... parts of everything the generator asks for
        scen.append(("code", t, dict(base, **code), iozoo.args(t, ["-c", "code"])))
        scen.append(("replace", t, dict(base, **repl), iozoo.args(t, ["-c", "code"])))
        if t in ("commsdsl2comms", "commsdsl2test", "commsdsl2tools_qt"):
            scen.append(("rename", t, dict(base, **{"code/include/s/own.h": b"namespace s { int own; }\n", "code/x.txt": b"x\n"}), iozoo.args(t, ["-c", "code", "-n", "other"])))
        c.log(t, len(gen), "files,", len(probed), "names of custom code")

    evals = success = 0
    kinds, outcomes = {}, {}
    jobs = build.JOBS
    pool = queue.Queue()

    for name, t, files, args in scen:
        dirs = []
        for i in range(jobs):
            d = os.path.join(c.work, "w%d" % i)
            shutil.rmtree(d, True)
            put(d, files)
            dirs.append(d)
        ref, ops = iofault.run(so, tools[t], args, dirs[0], dirs[0])
        if ref.rc != 0:
            raise Exception("%s %s: %r" % (t, name, ref))
        want = proc.tree(dirs[0] + "/o")
        again, ops2 = iofault.run(so, tools[t], args, dirs[1], dirs[1])
        if ops != ops2:
            c.violation("%s|%s|order" % (t, name), "two runs do not perform the same operations: %s" % [x for x in zip(ops, ops2) if x[0] != x[1]][:2], {"tool": t, "args": args})
        for d in dirs:
            pool.put(d)
        todo = []
        for i, (k, p) in enumerate(ops):
            for m, ok in MODES.get(k, ()):
                # names asked for are covered by "code" and "replace"; operations on unchanged inputs need no repetition
                if name != "plain" and k in ("openr", "read") and not p.startswith(("/code", "/o")):
                    continue
                if name in ("code", "replace") and k in ("openw", "write", "close", "mkdir") and not c.thorough and m in ("ENOSPC", "SHORT") and k != "close" and not (k == "write" and m == "ENOSPC"):
                    continue
                todo.append((i, k, p, m, ok))

        def one(a):
            i, k, p, m, ok = a
            d = pool.get()
            try:
                shutil.rmtree(d + "/o", True)
                r, got = iofault.run(so, tools[t], args, d, d, i, m)
                tr = proc.tree(d + "/o") if os.path.isdir(d + "/o") else {}
                return a, r, got, tr == want, (proc.diff_trees(want, tr, 2) if tr != want else [])
            finally:
                pool.put(d)

        with ThreadPoolExecutor(jobs) as ex:
            for (i, k, p, m, ok), r, got, same, df in ex.map(one, todo):
                evals += 1
                kinds[k + "/" + m] = kinds.get(k + "/" + m, 0) + 1
                bad = None
                if r.crashed:
                    bad = "crash: %r" % r
                elif i >= len(got) or got[i] != (k, p):
                    bad = "operation %d is not reproducible: %s instead of %s" % (i, got[i] if i < len(got) else None, (k, p))
                elif r.rc == 0 and not same:
                    bad = "exit status 0 with incomplete output: %s" % df
                elif r.rc == 0 and not ok:
                    bad = "exit status 0 although the operation failed"
                elif r.rc != 0 and "[ERROR]" not in r.err + r.out and "Unhandled exception" not in r.err + r.out:
                    bad = "no error message: %r" % r
                outcomes["failure" if r.rc else "complete"] = outcomes.get("failure" if r.rc else "complete", 0) + 1
                success += r.rc == 0
                if bad:
                    c.violation("%s|%s|%s %s|%s %s" % (t, name, k, m, p, i), bad, {"tool": t, "scenario": name, "args": args, "operation": i, "kind": k, "path": p, "mode": m, "replay": "VF_ROOT=<dir> VF_N=%d VF_MODE=%s LD_PRELOAD=<harness/iofault.c>" % (i, m)})
        while not pool.empty():
            pool.get()

    c.log("injected", evals, "faults:", outcomes)

    # obstacles of the real file system: whatever is to be written cannot be
    obst = []
    for t in iozoo.TOOLS:
        d = os.path.join(c.work, "real_" + t)
        put(d, base)
        r = proc.run(tools[t], iozoo.args(t), d)
        if r.rc != 0:
            raise Exception("%s: %r" % (t, r))
        want = proc.tree(d + "/o")
        for p, v in sorted(want.items()):
            obst.append((t, "directory in place of a file" if v is not None else "file in place of a directory", p, None, want))
            if v is not None:
                obst.append((t, "dangling link in place of a file", p, None, want))
        sizes = sorted({len(v) for v in want.values() if v is not None and len(v) > 0})
        for s in sizes:
            obst.append((t, "no file may get longer than", str(s - 1), s - 1, want))
        obst.append((t, "no file may get longer than", str(sizes[-1]), sizes[-1], want))
        shutil.rmtree(d)

    def real(a):
        n, (t, what, p, lim, want) = a
        d = os.path.join(c.work, "r%d" % n)
        put(d, base)
        if lim is None:
            q = os.path.join(d, "o", p)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if what.startswith("directory"):
                os.makedirs(q)
            elif what.startswith("file"):
                open(q, "w").close()
            else:
                os.symlink("/nonexistent/vf/none", q)
        pre = None
        if lim is not None:
            def pre():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": d}
        try:
            p_ = subprocess.run([t] + iozoo.args(t), executable=tools[t], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, env=e, preexec_fn=pre)
            r = proc.Result(p_.returncode, p_.stdout.decode(errors="replace"), p_.stderr.decode(errors="replace"))
        except subprocess.TimeoutExpired:
            r = proc.Result(None, "", "", True)
        tr = proc.tree(d + "/o") if os.path.isdir(d + "/o") else {}
        shutil.rmtree(d)
        return t, what, p, lim, r, tr == want, proc.diff_trees(want, tr, 2)

    with ThreadPoolExecutor(jobs) as ex:
        for t, what, p, lim, r, same, df in ex.map(real, enumerate(obst)):
            evals += 1
            bad = None
            if r.crashed:
                bad = "crash: %r" % r
            elif r.rc == 0 and not same:
                bad = "exit status 0 with incomplete output: %s" % df
            elif r.rc != 0 and same and lim is not None:
                bad = "failure although nothing stands in the way: %r" % r
            elif r.rc != 0 and "[ERROR]" not in r.err + r.out and "Unhandled exception" not in r.err + r.out:
                bad = "no error message: %r" % r
            if bad:
                c.violation("real|%s|%s|%s" % (t, what, p), bad, {"tool": t, "obstacle": what, "path": p, "args": iozoo.args(t)})
    c.log("obstacles:", len(obst))
    c.assumptions = ["one fault per run, at every operation of the run in turn; operations below the working directory only (the executables' own libraries are not touched)",
                     "operations on inputs that do not exist (optional custom code files) are not made to fail in another way"]
    c.cov = {"evaluations": evals, "distinct_nontrivial": evals - success, "rule": "every operation of every file-writing scenario x every way it may fail", "samples": [], "exhaustive": True, "faults": kinds, "outcomes": outcomes, "scenarios": len(scen), "obstacles": len(obst)}


if __name__ == "__main__":
    sys.exit(check.run("C12", "fault_enumeration", body))
