"""Builds libcommsdsl, the seven generators and the harnesses from /repo's current working tree.

Every object is cached under /verif/.cache by the content of the source, of all the headers it may
include and of the flags, so a check that runs on an unchanged tree compiles nothing, and a check that
runs on a changed tree recompiles exactly what the change reaches. Nothing is written to /repo."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
APPS = ["commsdsl2comms", "commsdsl2c", "commsdsl2emscripten", "commsdsl2latex", "commsdsl2swig", "commsdsl2test", "commsdsl2tools_qt"]
CXX = "g++"
TOOL_FLAGS = ["-std=gnu++17", "-O0", "-w", "-D_GLIBCXX_ASSERTIONS"]

class BuildError(Exception):
    pass

_mem = {}
_lock = threading.Lock()

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:40]

def fhash(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()[:40]

def tree_files(root, exts=None):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if exts is None or f.endswith(exts):
                out.append(os.path.join(d, f))
    return sorted(out)

def tree_hash(root, exts=None):
    """content hash of a directory (relative names + contents)"""
    return sha(*[x for p in tree_files(root, exts) for x in (os.path.relpath(p, root), fhash(p))])

def compiler_id():
    with _lock:
        if "cc" not in _mem:
            _mem["cc"] = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
    return _mem["cc"]

def cached(kind, key, make):
    """returns the path of the cached file; make(tmp_path) creates it"""
    d = os.path.join(CACHE, kind, key[:2])
    p = os.path.join(d, key)
    if os.path.exists(p):
        try:
            os.utime(p)
        except OSError:
            pass
        return p
    os.makedirs(d, exist_ok=True)
    tmp = "%s.%d.%d" % (p, os.getpid(), threading.get_ident())
    try:
        make(tmp)
        os.rename(tmp, p)
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)
    return p

def _cc(src, flags, key):
    def make(tmp):
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("%s does not compile:\n%s" % (src, r.stderr[-4000:]))
    return cached("obj", key, make)

def headers_hash(dirs):
    return sha(*[x for d in dirs for p in tree_files(d, (".h", ".hpp")) for x in (os.path.relpath(p, REPO), fhash(p))])

def _compile_all(srcs, flags, hh, pool):
    futs = []
    for s in srcs:
        key = sha(compiler_id(), " ".join(flags), s, fhash(s), hh)
        futs.append(pool.submit(_cc, s, flags, key))
    return [f.result() for f in futs]

def _link(objs, key, extra):
    def make(tmp):
        r = subprocess.run([CXX, "-o", tmp] + objs + extra, capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link failed:\n%s" % r.stderr[-4000:])
        os.chmod(tmp, 0o755)
    return cached("bin", key, make)

def lib_flags():
    return TOOL_FLAGS + ["-I%s/lib/include" % REPO, "-I%s/lib/src" % REPO, "-isystem", "/usr/include/libxml2"]

def build_tools(apps=APPS, drivers=()):
    """Builds the library, then the given apps and parse drivers; returns {name: path of the binary}."""
    libh = headers_hash([REPO + "/lib/include", REPO + "/lib/src"])
    out = {}
    with ThreadPoolExecutor(JOBS) as pool:
        libsrc = sorted(glob.glob(REPO + "/lib/src/**/*.cpp", recursive=True))
        lib = pool.submit(lambda: None)
        futs = {}
        pend = []
        for s in libsrc:
            key = sha(compiler_id(), " ".join(lib_flags()), s, fhash(s), libh)
            pend.append(pool.submit(_cc, s, lib_flags(), key))
        for a in apps:
            src = REPO + "/app/%s/src" % a
            fl = TOOL_FLAGS + ["-I%s/lib/include" % REPO, "-DCOMMS_TAG="]
            hh = sha(headers_hash([REPO + "/lib/include"]), headers_hash([src]))
            futs[a] = [pool.submit(_cc, s, fl, sha(compiler_id(), " ".join(fl), s, fhash(s), hh)) for s in sorted(glob.glob(src + "/*.cpp"))]
        for d in drivers:
            s = os.path.join(VERIF, d)
            fl = lib_flags()
            futs[d] = [pool.submit(_cc, s, fl, sha(compiler_id(), " ".join(fl), s, fhash(s), libh))]
        libobjs = [f.result() for f in pend]
        def mkar(tmp):
            t = tmp + ".a"
            if os.path.exists(t):
                os.unlink(t)
            subprocess.run(["ar", "qc", t] + libobjs, check=True, capture_output=True)
            os.rename(t, tmp)
        ar = cached("lib", sha(*libobjs), mkar)
        links = {}
        for n, fs in futs.items():
            objs = [f.result() for f in fs]
            links[n] = pool.submit(_link, objs, sha("exe", ar, *objs), ["-x", "none", ar, "-lxml2"])
        for n, f in links.items():
            out[n] = f.result()
    return out

def prune(max_bytes=6 << 30):
    """drop least recently used cache entries"""
    ents = []
    for p in tree_files(CACHE):
        try:
            st = os.stat(p)
            ents.append((st.st_mtime, st.st_size, p))
        except OSError:
            pass
    tot = sum(e[1] for e in ents)
    for m, s, p in sorted(ents):
        if tot <= max_bytes:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s

if __name__ == "__main__":
    import time
    t = time.time()
    for k, v in build_tools().items():
        print(k, v)
    print("%.1fs" % (time.time() - t))
