import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import check
from checks import parsing


def body(c):
    total, legal, per, samples, _ = parsing.explore(c, lambda k: k in ("differs", "rejects legal", "crash", "warning", "accepts illegal"))
    c.cov = {"evaluations": total, "distinct_nontrivial": legal, "rule": "every schema of the bounded families (vlib/gen: attribute alphabets crossed per field kind, position, nesting, version, reference, reuse, condition, message, frame) is given to the real "
             "parser and to the reference interpreter; distinct_nontrivial counts the schemas both accept, whose complete parsed model is compared attribute by attribute", "families": per, "samples": samples[:20], "exhaustive": True}
    c.assumptions = ["the reference interpreter model/cdsl.py states what CommsDSL means; it agrees with the parser on all schemas of the repository's own tests"]


check.run("C07", "exploration", body)
