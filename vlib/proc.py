"""Runs the real generators as processes inside scratch directories."""
import os, shutil, signal, subprocess, tempfile
from . import build


class Result:
    __slots__ = ("rc", "out", "err", "timeout")

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    @property
    def crashed(self):
        """ended by a signal, or hung; the tools report failure with a status of 254/255 (return -1 / -2), never 128+n"""
        return self.timeout or self.rc < 0

    def __repr__(self):
        return "rc=%s%s stderr=%r" % (self.rc, " TIMEOUT" if self.timeout else "", self.err[-400:])


_hangs = [0]


def run(exe, args, cwd, timeout=30, env=None, name=None):
    if _hangs[0] >= 3:
        timeout = 3
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": cwd}
    e.update(env or {})
    try:
        p = subprocess.run([name or os.path.basename(exe)] + list(args), executable=exe, cwd=cwd, stdin=subprocess.DEVNULL, capture_output=True, timeout=timeout, env=e)
        return Result(p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"))
    except subprocess.TimeoutExpired as x:
        _hangs[0] += 1
        return Result(None, (x.stdout or b"").decode(errors="replace"), (x.stderr or b"").decode(errors="replace"), True)


def tree(root, skip=()):
    """{relative path: bytes | None for a directory | ('link', target)}"""
    out = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for n in list(ds):
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
            else:
                out[r] = None
        for n in fs:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                out[r] = ("link", os.readlink(p))
                continue
            with open(p, "rb") as f:
                out[r] = f.read()
    return out


def files(t):
    return {k: v for k, v in t.items() if isinstance(v, bytes)}


def diff_trees(a, b, n=4):
    """human readable differences of two trees"""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            out.append("%s only in second" % k)
        elif k not in b:
            out.append("%s only in first" % k)
        elif a[k] != b[k]:
            out.append("%s differs" % k + where(a[k], b[k]))
        if len(out) >= n:
            break
    return out


def where(a, b):
    if not (isinstance(a, bytes) and isinstance(b, bytes)):
        return ""
    la, lb = a.split(b"\n"), b.split(b"\n")
    for i, (x, y) in enumerate(zip(la, lb)):
        if x != y:
            return " at line %d: %r | %r" % (i + 1, x[:150], y[:150])
    return " in length: %d | %d lines" % (len(la), len(lb))
