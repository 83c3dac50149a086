import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, check, wire
from gen import names, sem


def body(c):
    tool = build.build_tools(["commsdsl2comms"])["commsdsl2comms"]
    only = os.environ.get("ONLY")
    note = []
    bs = sem.batches(sem.C02V, note=note)
    if os.environ.get("NOTE"):
        for x in sorted(set(note)):
            print("NOT LEGAL", *x)
    if only:
        bs = [b for b in bs if only in b.key]
    print(len(bs), "batches")
    for b in bs:
        b.main = names.main_of
    c.cov = wire.run(c, tool, bs, sem.named_inputs)


check.run("C02", "model_checking", body)
