"""What every check shares: tier, violations with replay files, known findings, evidence."""
import hashlib, json, os, shutil, sys, tempfile, time, traceback, atexit
from . import build

VERIF = build.VERIF
FINDINGS = os.path.join(VERIF, "known-findings.txt")


def load_findings():
    """'finding: property=<id> key=<key> :: <what fails>' -> {(property, key): what}; lines starting with 'fixed:' suppress nothing"""
    out = {}
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS, encoding="utf-8"):
            if l.startswith("finding: "):
                head, _, what = l[len("finding: "):].rstrip("\n").partition(" :: ")
                p, _, k = head.partition(" key=")
                out[(p[len("property="):], k)] = what
    return out


class Check:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.findings = {k[1]: v for k, v in load_findings().items() if k[0] == prop}
        self.hit = set()
        self.viol = {}
        self.cov = {}
        self.assumptions = []
        self.work = tempfile.mkdtemp(prefix="vf_%s_" % prop.lower(), dir="/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None)
        atexit.register(shutil.rmtree, self.work, True)
        self.thorough = self.tier == "thorough"

    def violation(self, key, what, data=None):
        """key: identifies the failing input"""
        if key in self.findings:
            self.hit.add(key)
            return
        if key not in self.viol:
            self.viol[key] = (what, data)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions,
              "violations": [{"key": k, "what": v[0]} for k, v in list(self.viol.items())[:50]], "known_findings_seen": sorted(self.hit)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(self.hit):
            print("KNOWN-FINDING: property=%s %s [%s]" % (self.prop, self.findings[k], k))
        rd = os.path.join(VERIF, "replay")
        os.makedirs(rd, exist_ok=True)
        if os.environ.get("BRIEF"):
            seen = set()
            for k, (what, data) in self.viol.items():
                kk = k.rpartition("|")[0]
                if kk not in seen:
                    seen.add(kk)
                    print("VIOL", k, "::", str(what)[:int(os.environ["BRIEF"])])
            self.log("done", "%d violations" % len(self.viol))
            return 1 if self.viol else 0
        for n, (k, (what, data)) in enumerate(self.viol.items()):
            if n >= 20:
                print("... and %d more" % (len(self.viol) - 20))
                break
            p = os.path.join(rd, "%s-%s.json" % (self.prop, hashlib.sha256(k.encode()).hexdigest()[:12]))
            with open(p, "w") as f:
                json.dump({"property": self.prop, "key": k, "what": what, "data": data}, f, indent=1, default=repr)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("   ", k, "::", str(what)[:1500])
        self.log("coverage", json.dumps(self.cov)[:1500])
        self.log("done", "%d violations" % len(self.viol))
        sys.stdout.flush()
        return 1 if self.viol else 0


def run(prop, level, body):
    c = Check(prop, level)
    try:
        body(c)
    except build.BuildError as e:
        # a tree that does not build has no behaviour to judge
        print(str(e))
        print("ERROR: build failed")
        sys.exit(3)
    except Exception:
        traceback.print_exc()
        sys.exit(3)
    sys.exit(c.finish())
