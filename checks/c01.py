import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build, check, wire
from gen import wire as gw


def body(c):
    tool = build.build_tools(["commsdsl2comms"])["commsdsl2comms"]
    only = os.environ.get("ONLY")
    bs = gw.batches(gw.C01)
    if only:
        bs = [b for b in bs if only in b.key]
    c.cov = wire.run(c, tool, bs, gw.wire_inputs)
    c.cov["bounds"] = "one field kind per message with every combination of up to three attributes; sequences: initial state, up to two assignments of boundary values, byte strings up to length 4 over small alphabets, all truncations and byte replacements of what the assignments write"


check.run("C01", "model_checking", body)
