"""Runs the sessions of one property and writes its evidence."""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import mir
import client

PROG = None
TIER = os.environ.get("VERIF_TIER", "quick")


# shapes of the alarm confirmation: width, height, share of the remaining time
SHAPES = {("quick", False): [(2, 2, 0.3), (1, 14, 0.2), (9, 1, 0.2), (3, 2, 0.4), (2, 3, 0.6), (3, 3, 1.0)],
          ("quick", True): [(2, 2, 0.3), (1, 7, 0.3), (2, 3, 0.7), (2, 4, 1.0)],
          ("thorough", False): [(2, 2, 0.3), (1, 40, 0.2), (40, 1, 0.2), (3, 2, 0.4), (2, 3, 0.5), (3, 3, 0.5), (2, 5, 0.5), (5, 3, 1.0)],
          ("thorough", True): [(2, 2, 0.3), (1, 12, 0.3), (2, 3, 0.5), (2, 4, 0.6), (2, 5, 1.0)]}
CONFIRM_S = 40.0
BRIEF_S = 3.0


class R:
    """Result of one task."""

    def __init__(self, label):
        self.label = label
        self.status = "proved"      # proved | violation | undecided
        self.viol = []              # dicts: rule fn line msg trace
        self.reasons = []
        self.obl = 0
        self.paths = 0
        self.states = 0
        self.fns = set()
        self.wall = 0.0
        self.confirm = None

    def bad(self, rule, fn, line, msg, trace=()):
        self.status = "violation"
        self.viol.append({"rule": rule, "function": fn, "at": line, "message": msg, "trace": list(trace)})


def shorten(s):
    return s.replace("tree_iterators_rs::", "")


def session_task(fn, args, kinds=None, shapes=None):
    """Decide one session: fixpoint with widening; an alarm counts only when it
    is reached again without widening."""
    def run(prog):
        r = R("")
        t0 = time.time()
        client.WIDEN = True
        client.SPARE = False
        client.BUDGET = 25.0 if TIER == "quick" else 180.0
        try:
            S = fn(prog, *args)
        except client.Missing as e:
            r.label = fn.__name__ + repr(args)
            r.bad("missing", "-", "-", str(e))
            return r
        r.label = S.label
        account(r, S)
        clean = S.converged and not relevant(S, kinds) and not S.I.unmodelled
        if clean:
            r.status = "proved"
        if True:
            # a proof is followed by a short run without folding, which also
            # sees loops that are never left in some of the folded states
            brief = clean and TIER == "quick"
            client.WIDEN = False
            client.LIMIT = 20000 if TIER == "quick" else 200000
            stop = time.process_time() + (BRIEF_S if brief else CONFIRM_S if TIER == "quick" else 600.0)
            r.confirm = []
            bad = []
            # trees just beyond the integers that the code mentions
            edge = []
            for c in [] if brief else sorted(S.I.consts)[:3]:
                if S.binary:
                    edge += [(0, c + 2, 0.2, True)] + ([(c + 2, 0, 0.2, False)] if S.coll else [])
                else:
                    edge += [(1, c + 2, 0.2, True), (c + 2, 1, 0.2, False)]
            for (w, h, share, *spare) in edge + ([(2, 2, 1.0)] if brief else shapes or SHAPES[TIER, S.I.slots]):
                client.SPARE = spare == [True]
                left = stop - time.process_time()
                if left < min(1, BRIEF_S / 2):
                    break
                client.WIDTH, client.HEIGHT = w, h
                client.BUDGET = left * share
                B = fn(prog, *args)
                bad = relevant(B, kinds)
                r.confirm.append({"width": w, "height": h, **({"one_more": True} if client.SPARE else {}), "client_states": B.cstates, "paths": B.I.paths, "checks": B.obl,
                                  "complete": B.converged and not B.I.unmodelled,
                                  **({} if B.converged and not B.I.unmodelled else
                                     {"incomplete_because": ["%s (%s)" % (m, shorten(f)) for (m, f, ln) in list(B.I.unmodelled)[:3]]})})
                if bad:
                    break
            if bad:
                seen = set()
                for (rule, f, ln, msg, tr) in bad:
                    k = (rule, f, ln)
                    if k in seen:
                        continue
                    seen.add(k)
                    r.bad(rule, shorten(f), ln, msg, tr)
            elif not clean:
                r.status = "undecided"
                r.reasons = ["%s (%s %s)" % (m, shorten(f), ln) for (m, f, ln) in list(S.I.unmodelled)[:6]]
                for (rule, f, ln, msg, tr) in relevant(S, kinds)[:4]:
                    r.reasons.append("unconfirmed alarm: %s %s %s: %s" % (rule, shorten(f), ln, msg))
                if not S.converged and not r.reasons:
                    r.reasons.append("no fixpoint within the limits")
        r.wall = time.time() - t0
        return r
    return run


def account(r, S):
    r.obl = S.obl
    r.paths = S.I.paths
    r.states = S.cstates
    r.fns = {k for k in S.I.analysed}


def relevant(S, kinds):
    out = [(v.rule, v.fn, v.line, v.msg, v.trace) for v in S.viol]
    for e in S.I.events:
        if e[0] != "repoll":        # iterators of children are taken to be fused
            out.append(e)
    if kinds is not None:
        out = [x for x in out if x[0] in kinds]
    return out


def _one(i):
    try:
        r = TASKS[i](PROG)
    except Exception:
        r = R("task %d" % i)
        r.status = "undecided"
        r.reasons = ["internal error: " + traceback.format_exc().strip().splitlines()[-1]]
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    return r


TASKS = []


def export():
    out = tempfile.mkdtemp(prefix="verif_")
    p = subprocess.run([os.path.join(V, "bin", "export.sh"), out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        sys.stderr.write(p.stderr[-3000:])
        shutil.rmtree(out, ignore_errors=True)
        sys.exit(2)
    return out


def main(argv):
    global PROG, TASKS
    pid = argv[1]
    t0 = time.time()
    import props
    spec = props.PROPS[pid]
    keep = os.environ.get("VERIF_EXPORT")
    out = keep or export()
    try:
        PROG = mir.Program([("lib", os.path.join(out, "lib.json")), ("models", os.path.join(out, "models.json"))])
        TASKS = spec["tasks"](PROG)
        with mp.get_context("fork").Pool(min(8, max(1, len(TASKS)))) as pool:
            res = pool.map(_one, range(len(TASKS)), chunksize=1)
    finally:
        if not keep:
            shutil.rmtree(out, ignore_errors=True)
    known = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
    known = [k for k in known if k["property"] == pid]
    viol = []
    hit = []
    for r in res:
        for v in r.viol:
            m = [k for k in known if k["rule"] == v["rule"] and k["function"] == v["function"]
                 and k.get("session", r.label) == r.label]
            if m:
                hit.append(m[0])
            else:
                viol.append((r, v))
    for k in known:
        if k in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    nprov = sum(1 for r in res if r.status == "proved")
    fns = set()
    for r in res:
        fns |= r.fns
    cov = {
        "explanation": spec["explanation"],
        "rule": spec["rule"],
        "tasks": len(res),
        "tasks_decided": nprov,
        "obligations": sum(r.obl for r in res),
        "discharged": sum(r.obl for r in res if r.status == "proved"),
        "abstract_paths": sum(r.paths for r in res),
        "client_states": sum(r.states for r in res),
        "functions_analysed": sorted(shorten(f) for f in fns),
        "results": [{"task": r.label, "status": r.status, "obligations": r.obl, "paths": r.paths, "states": r.states,
                     "wall_s": round(r.wall, 2), **({"undecided_because": r.reasons} if r.reasons else {}),
                     **({"without_widening": r.confirm} if r.confirm else {}),
                     **({"violations": r.viol} if r.viol else {})} for r in res],
        "checker_cmd": "bin/check %s" % pid,
        "trusted_base": ["rustc's MIR", "the exporter (driver/)",
                         "the abstract semantics of MIR and of the std containers (engine/, models/)",
                         "the specification of the property (engine/sessions.py)"],
    }
    ev = {"property": pid, "tier": TIER, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": spec["level"],
          "coverage": cov, "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in res:
        if r.status == "undecided":
            print("undecided: %s: %s" % (r.label, "; ".join(r.reasons)[:300]))
    print("%s: %d tasks, %d decided, %d undecided, %d obligations, %.1f s"
          % (pid, len(res), nprov, sum(1 for r in res if r.status == "undecided"), cov["obligations"], time.time() - t0))
    if viol:
        rp = os.path.join(V, "evidence", "replay-%s.json" % pid)
        with open(rp, "w") as f:
            json.dump([{"task": r.label, **v} for r, v in viol], f, indent=1)
        for r, v in viol[:20]:
            print("  %s: %s: %s at %s: %s" % (r.label, v["rule"], v["function"], v["at"], v["message"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
