"""C08: malformed input of any kind ends in a reported failure, without crash and without output; everything legal ends in output or a reported failure."""
import os, shutil, sys
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, check, proc
from checks import parsing

SCHEMA = '''<schema name="s" endian="little" version="5"><platforms><platform name="P1"/></platforms><interface name="If"><int name="f" type="uint8"/></interface><message name="M" id="1" order="0"><int name="p" type="uint8"/></message><ns name="sub"><message name="N" id="2" order="0"/></ns><frame name="Fr"><layers><id name="L0"><field><int name="F0" type="uint8"/></field></id><payload name="L1"/></layers></frame></schema>'''

C, E, S, X, L, T, Q = "commsdsl2comms", "commsdsl2emscripten", "commsdsl2swig", "commsdsl2c", "commsdsl2latex", "commsdsl2test", "commsdsl2tools_qt"
ALL = (C, E, S, X, L, T, Q)
MIN = (C, E, S, X, L)            # tools with -m
SEL = (E, S, X)                  # tools with --messages-list, --force-platform, --force-interface
LEGAL_QUICK = ("legal:frame|", "legal:cond|", "legal:msg|", "legal:layer|", "legal:names|", "legal:multi|", "legal:repo|")


def cases():
    """(tools, arguments, must fail)"""
    B = ["-o", "o", "s.xml"]
    miss = ("none", "none/none", "dir/none")
    yield ALL, [], True
    yield ALL, ["-o", "o"], True
    for o in ("-o", "-c", "-n", "-i", "-p", "--force-schema-version"):
        yield ALL, ["s.xml", "-o", "o", o] if o != "-o" else ["s.xml", o], True
    for v in ("x", "", " ", "-1", "1x", "0x", "4294967296", "18446744073709551616", "99999999999999999999999", "1.5", "6", "2147483647", "2147483648", "4294967294", "4294967295"):
        yield ALL, B + ["--force-schema-version", v], True
    for v in ("0", "1", "5"):
        yield ALL, B + ["--force-schema-version", v], False
    for v in ("x", "", " ", "-1", "1x", "4294967296", "18446744073709551616", "99999999999999999999999", "1.5"):
        yield MIN, B + ["-m", v], True
    for v in ("0", "1", "5", "6", "4294967295"):
        yield MIN, B + ["-m", v], False
    for n in miss + ("dir", "empty", "bin", "bad", "trunc.xml", "twice.xml"):
        yield ALL, ["-o", "o", n], True
        yield ALL, ["-o", "o", "s.xml", n], True
        yield ALL, ["-o", "o", n, "s.xml"], True
        yield ALL, ["-o", "o", "-s", "s.xml", n], True
    for n in miss + ("dir",):
        yield ALL, B + ["-i", n], True
        yield ALL, ["-o", "o", "-i", n], True
    for n in ("empty", "bad", "bin"):
        yield ALL, ["-o", "o", "-i", n], True
    yield ALL, ["-o", "o", "-i", "lst"], False
    yield ALL, ["-o", "o", "-i", "crlf"], False
    yield ALL, ["-o", "o", "-i", "lst", "-p", "none"], True
    yield ALL, ["-o", "o", "-i", "lst", "-p", "."], False
    for n in ("empty", "empty/x", "s.xml"):
        yield ALL, ["-o", n, "s.xml"], True
    yield ALL, B + ["-q", "-d"], True
    yield ALL, B + ["-d", "-q"], True
    yield ALL, B + ["-q"], False
    yield ALL, B + ["-d"], False
    yield ALL, ["", "-o", "o", "s.xml"], None
    for v in ("-z", "--zz", "-", "--", "", "-qd"):
        yield ALL, B + [v], None
    for v in miss + ("dir", "bad", "badns", "badns2", "bin"):
        yield SEL, B + ["--messages-list", v], True
    yield SEL, B + ["--messages-list", "ml"], False
    yield SEL, B + ["--messages-list", "mlns"], False
    yield SEL, B + ["--messages-list", "ml", "--force-platform", "P1"], True
    yield SEL, B + ["--force-platform", "P1"], False
    for v in ("x", "P", "P11", "p1", " "):
        yield SEL, B + ["--force-platform", v], True
    yield SEL, B + ["--force-interface", "If"], False
    for v in ("x", "sub.If", "sub.", "a.b.c", "M", "Fr", " ", "If.f"):
        yield SEL, B + ["--force-interface", v], True
    for v in ("full", "limited", "none"):
        yield (C,), B + ["--customization", v], False
    for v in ("X@none", "X@bad", "X@badns", "@", "X@", "X@dir"):
        yield (C,), B + ["--extra-messages-bundle", v], True
    for v in ("X@ml", "X@mlns", "X@ml,Y@mlns"):
        yield (C,), B + ["--extra-messages-bundle", v], False
    for v in ("x", "Fr:x:n", "Fr:If.f:n", "sub.Fr:If:n", "Fr2:If:n:d:i", "a.b.c", "M:If"):
        yield (Q,), B + ["--protocol", v], True
    for v in ("Fr:If:n:d:i", "Fr:If", "Fr"):
        yield (Q,), B + ["--protocol", v], False
    yield ALL, ["-h"], False
    yield ALL, ["--version"], False
    for v in ("a:b", "1:2", ":", "::", "a:", ":a", ",", "s:x,s:y"):
        yield ALL, B + ["-n", v], None


def body(c):
    total, legal, per, samples, reasons = parsing.explore(c, lambda k: k in ("crash", "accepts illegal", "no message"))
    tools = build.build_tools()
    nontrivial = 0

    # the same decisions taken by the real processes
    def files(d, schemas):
        fs = []
        for j, s in enumerate(schemas):
            p = os.path.join(d, "s%d.xml" % j)
            with open(p, "wb") as f:
                f.write(s.encode() if isinstance(s, str) else s)
            fs.append(p)
        return fs

    def judge(r, outs, must_fail):
        if r.crashed:
            return "crash: " + repr(r)
        if must_fail and r.rc == 0:
            return "exit status 0 although the input is unusable; %d files generated" % len(outs)
        if must_fail and outs:
            return "files generated from an unusable input: %s" % outs[:4]
        if r.rc != 0 and not (r.err + r.out).strip():
            return "failure (status %s) without any message" % r.rc
        if r.rc != 0 and "[ERROR]" not in r.err + r.out and "Unhandled exception" not in r.err:
            return "failure (status %s) without an error message: %r" % (r.rc, (r.err + r.out)[-300:])
        if r.rc == 0 and "[ERROR]" in r.err + r.out:
            return "error reported with exit status 0: %r" % (r.err + r.out)[-300:]
        if r.rc == 0 and not outs:
            return "nothing generated, and exit status 0"
        return None

    def job(a):
        i, k, case, must_fail = a
        d = os.path.join(c.work, "p%d" % i)
        os.makedirs(d)
        bad = []
        fs = files(d, case[3])
        # library options of the case which the command line spells differently
        flags = ["-s"] if "m" in case[1] else []
        for app in ALL:
            r = proc.run(tools[app], flags + ["-o", d + "/o"] + fs, d)
            outs = sorted(proc.files(proc.tree(d + "/o"))) if os.path.exists(d + "/o") else []
            w = judge(r, outs, must_fail)
            if w:
                bad.append((app, w))
            shutil.rmtree(d + "/o", True)
        shutil.rmtree(d)
        return k, case, bad

    rej = [(k, v, True) for k, v in sorted(reasons.items()) if not k.startswith("legal:") and not v[2] and set(v[1]) <= {"m"}]
    leg = [(k, v, False) for k, v in sorted(reasons.items()) if k.startswith("legal:") and not v[2] and set(v[1]) <= {"m"} and (c.thorough or k.startswith(LEGAL_QUICK) or k.startswith("legal:single|") and "|global|" in k)]
    c.log(len(rej), "kinds of rejected schemas,", len(leg), "shapes of legal schemas")
    with ThreadPoolExecutor(build.JOBS if hasattr(build, "JOBS") else 8) as ex:
        for k, case, bad in ex.map(job, [(i,) + x for i, x in enumerate(rej + leg)]):
            nontrivial += 1
            for app, w in bad:
                c.violation("process|%s|%s" % (app, case[0]), w, {"tool": app, "schemas": [s if isinstance(s, str) else s.decode("utf-8", "replace") for s in case[3]]})
    c.log("processes done")

    def prep(d):
        os.makedirs(d)
        os.mkdir(d + "/dir")
        for n, t in (("s.xml", SCHEMA), ("empty", ""), ("trunc.xml", SCHEMA[:-20]), ("twice.xml", SCHEMA.replace('name="s"', 'name="t"') * 2), ("lst", "s.xml\n"), ("crlf", "s.xml\r\n"), ("ml", "M\n"), ("mlns", "M\nsub.N\n"), ("bad", "nope\n"), ("badns", "M\nsub.M\n"), ("badns2", "nons.M\n")):
            with open(os.path.join(d, n), "w", newline="") as f:
                f.write(t)
        with open(d + "/bin", "wb") as f:
            f.write(bytes(range(1, 256)))

    def cmd(a):
        i, app, args, must = a
        d = os.path.join(c.work, "c%d" % i)
        prep(d)
        before = proc.tree(d)
        r = proc.run(tools[app], args, d)
        after = proc.tree(d)
        outs = [k for k in after if k not in before]
        shutil.rmtree(d)
        if args in (["-h"], ["--version"]):
            w = None if r.rc == 0 and r.out and not outs else "help or version: " + repr(r)
        elif must is None:
            w = "crash: " + repr(r) if r.crashed else None
        else:
            w = judge(r, [o for o in outs if after[o] is not None], must)
            if not w and must is False and r.rc != 0:
                w = "usable command line refused: " + repr(r)
        return app, args, w

    cl = [(app, args, must) for apps, args, must in cases() for app in apps]
    with ThreadPoolExecutor(8) as ex:
        for app, args, w in ex.map(cmd, [(i,) + x for i, x in enumerate(cl)]):
            if w:
                c.violation("command line|%s|%s" % (app, " ".join(args)), w, {"tool": app, "arguments": args, "schema": SCHEMA})
    c.log(len(cl), "command lines")
    c.cov = {"evaluations": total + 7 * nontrivial + len(cl), "distinct_nontrivial": total - legal + nontrivial + len(cl),
             "rule": "schemas of the bounded families given to the real parser (accept/reject decided by the reference interpreter; a crash, a silent failure or an accepted illegal schema is a violation); one representative per distinct reject reason and per legal shape, and every "
                     "enumerated command line, run through the seven real tools (exit status, message, files)", "families": per, "reject_reasons": len(rej), "legal_shapes_run": len(leg), "command_lines": len(cl), "samples": samples[:10] + [" ".join(x[1]) for x in cl[:5]], "exhaustive": True}
    c.assumptions = ["tools are built with assertions and the library's own checks enabled, so a violated internal invariant is a crash"]


check.run("C08", "exploration", body)
