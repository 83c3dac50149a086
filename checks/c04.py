import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, check, wire
from gen import frames


def body(c):
    tool = build.build_tools(["commsdsl2comms"])["commsdsl2comms"]
    only = os.environ.get("ONLY")
    note = []
    bs = frames.batches(note)
    if os.environ.get("NOTE"):
        for x in sorted(set(note)):
            print("NOT LEGAL", *x)
    if only:
        bs = [b for b in bs if only in b.key]
    print(len(bs), "batches")
    c.cov = wire.run(c, tool, bs, None, explore=frames.explore)


check.run("C04", "model_checking", body)
