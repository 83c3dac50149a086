import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, check, wire
from gen import conds, sem


def body(c):
    tool = build.build_tools(["commsdsl2comms"])["commsdsl2comms"]
    only = os.environ.get("ONLY")
    note = []
    bs = conds.batches(note)
    if os.environ.get("NOTE"):
        for x in sorted(set(note)):
            print("NOT LEGAL", *x)
    if only:
        bs = [b for b in bs if only in b.key]
    print(len(bs), "batches")
    c.cov = wire.run(c, tool, bs, sem.ver_inputs)


check.run("C03", "model_checking", body)
