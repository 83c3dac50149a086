"""Runs a generator under the fault injector of harness/iofault.c."""
import os, subprocess, tempfile
from . import build, proc


def shim():
    src = os.path.join(build.VERIF, "harness/iofault.c")

    def make(tmp):
        r = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", tmp, src, "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise build.BuildError("fault injector:\n" + r.stderr)
    return build.cached("so", build.sha(build.compiler_id(), build.fhash(src)), make)


def run(so, exe, args, cwd, root, n=-1, mode="EIO", env=None, name=None, timeout=60):
    """-> (result, [(kind, path)])"""
    tf = tempfile.TemporaryFile()
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": cwd, "LD_PRELOAD": so, "VF_ROOT": root, "VF_LOG": str(tf.fileno()), "VF_N": str(n), "VF_MODE": mode}
    e.update(env or {})
    try:
        p = subprocess.run([name or os.path.basename(exe)] + list(args), executable=exe, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout, env=e, pass_fds=(tf.fileno(),))
        res = proc.Result(p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"))
    except subprocess.TimeoutExpired as x:
        res = proc.Result(None, (x.stdout or b"").decode(errors="replace"), (x.stderr or b"").decode(errors="replace"), True)
    tf.seek(0)
    ops = [tuple(l.split(" ", 1)) for l in tf.read().decode(errors="replace").splitlines()]
    tf.close()
    return res, ops
