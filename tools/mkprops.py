#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
P = []
def prop(id, title, statement, over, qtext, why, files, symbols=None, mechanisms=None, observe=None):
    a = {"files": files}

    a["mechanism"] = [{"name": n, "where": w} for n, w in (mechanisms or [])]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_src.py')).read())
with open(OUT, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
