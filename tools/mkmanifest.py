"""Writes MANIFEST.json; a property without an entry in CHECKS is listed as not (yet) claimed."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "an executable reference model (model/wire.py) explored over all operation sequences of the bounded families; every model trace is replayed on the code generated and compiled from the current tree"
WNOTE = "; assumes the COMMS library behaves like the minimal re-implementation in mcomms (the real one is not available offline), which passes the repository's own generated-code tests"
CHECKS = {
    "C01": ("explicit-state exploration of " + REF, "model_checking", "status, consumed length, values, validity, length, written bytes and refresh result of every sequence compared" + WNOTE),
    "C02": ("explicit-state exploration of " + REF, "model_checking", "validity, refresh, names, special values, bits, units, indices and variant selection of every value sequence compared, in all version configurations" + WNOTE),
    "C03": ("explicit-state exploration of " + REF, "model_checking", "presence of optional and version dependent fields, read/valid/construct conditions and the resulting wire traffic compared in every version and interface state" + WNOTE),
    "C04": ("explicit-state exploration of an executable reference of framing (model/frame.py), every trace replayed on the generated C++ frames", "model_checking", "every layer order, wrapping, field type and algorithm of the families; written bytes, status, consumed length, dispatched message, transport values and cached layer fields compared for all encodings, their corruptions and truncations and all short strings" + WNOTE),
    "C05": ("bounded exhaustive exploration of message sets (ids, directions, platforms, bundles, namespaces, order) with an executable reference of the lists, replayed on the generated C++", "model_checking", "every definition of the families generated by the real tool; every generated list, factory and dispatcher evaluated for every id and index of interest" + WNOTE),
    "C06": ("bounded exhaustive exploration of definitions x option combinations (all field kinds and contexts, all element kind / name pairs, all presence combinations, texts) on the real generator, every output compiled with two compilers against the stand-in COMMS API", "exploration",
            "every header alone and all headers together with every class used under every options structure, no diagnostics allowed; markers prove that every option reaches its class" + WNOTE),
    "C09": ("bounded exhaustive exploration of pairs of definitions (reusing and written out) over all kinds of fields, places, overridden properties, two-step chains, replaced subsets and copied aliases, on the real parser and generator", "exploration",
            "both definitions of every pair are given to the real library and the real commsdsl2comms: both accepted or both rejected, equal parsed models, byte-identical generated trees"),
    "C10": ("bounded exhaustive exploration of the rewritings of seed schemas: every rewriting rule applied at every place it can be applied at and everywhere at once, all definition orders that keep dependencies, all splits into files", "exploration",
            "every respelled schema is given to the real library and the real generators: equal parsed models, byte-identical generated trees"),
    "C11": ("bounded exhaustive exploration of the surroundings of a generation run (memory layout and contents, time, directory order, locale, spelling of paths, names of files, state of the output directory) for every tool and example", "exploration",
            "byte-identical output trees in every variant; every file operation of traced runs stays inside of the inputs and the output directory; foreign files stay as they are"),
    "C12": ("exhaustive fault enumeration: every file operation of a generation run of every tool fails in turn in every way, under an interposed fault injector", "fault_enumeration",
            "every operation is either reported as a failure or has no effect on the completeness of the output; obstacles of the real file system (wrong kinds of files, size limits) in addition"),
    "C07": ("bounded exhaustive exploration of all schemas of the families on the real parser, compared with an executable reference model of CommsDSL (model/cdsl.py)", "exploration",
            "every schema of the bounded attribute families is parsed by the real library (whole parsed model dumped) and by the reference interpreter"),
    "C08": ("bounded exhaustive exploration of malformed schemas, byte-level corruptions and command lines on the real parser and the seven real tools", "exploration",
            "all corruptions/insertions/truncations of small schemas, all schemas of the families, one process run per reject reason / legal shape / command line and tool"),
}
try:
    exec(open(os.path.join(ROOT, "tools/checks_src.py")).read())
except OSError:
    pass
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, l, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 checks/%s.py" % i.lower(), "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % i.lower(), "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "model checking applies; the check is not built yet"})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
