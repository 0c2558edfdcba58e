"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = "tree_iterators_rs/src/"
PRE, INO, POS, BFS = (D + "dfs_preorder_iterators/", D + "dfs_inorder_iterators/", D + "dfs_postorder_iterators/", D + "bfs_iterators/")


def files(*dirs):
    out = []
    for d in dirs:
        if d.endswith("/"):
            out += [d + x for x in ("mod.rs", "owned.rs", "mut_borrow.rs", "borrow.rs")]
        else:
            out.append(D + d)
    return out


AI = "abstract interpretation of rustc MIR (shape domain over symbolic trees, fixpoint with widening)"
TRUST = ("Trusted: rustc's MIR, the exporter, the abstract semantics of MIR and of the std containers, and the "
         "specification. Node and children implementations supplied by users are assumed to be deterministic, with fused child iterators. ")
EVERY = ("Decided for every tree shape and every point of the history by a fixpoint over the compiled code; "
         "an alarm is reported only when it is reached again with folding switched off. ")
P = []


def prop(id, title, statement, over, text, why, fs, mech, state=(), technique=AI, level="proof", note=EVERY + TRUST, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=fs, mech=mech,
                  state=state, technique=technique, level=level, note=note, na=na))


exec(open(os.path.join(V, "tools", "catalog.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": p["mech"], "where": ", ".join(p["files"])}],
                        "state": [{"name": a, "meaning": b} for a, b in p["state"]]}}) + "\n")
M = {"version": 1, "setup_cmd": "bin/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": "bin/check " + p["id"],
                 "thorough_cmd": "env VERIF_TIER=thorough bin/check " + p["id"],
                 "technique": p["technique"], "level": p["level"], "level_note": p["note"].strip()}
                for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]}
json.dump(M, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
