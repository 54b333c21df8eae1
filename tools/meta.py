#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and sim/props.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "lightstep/sdk/metric/"
EXPO = ["github.com/lightstep/go-expohisto"]

CORE_REAL = ["lightstep/sdk/metric and every package below it that the scenario reaches (provider, meter, sync/async instruments, syncstate, asyncstate, viewstate, view, aggregators, fprint, periodic and manual readers)",
             "github.com/lightstep/go-expohisto (instrumented like the repository)", "go.opentelemetry.io/otel attribute and metric API packages"]
CORE_STUB = ["goroutine scheduler, sync, sync/atomic, time and context timers: replaced by the simulator's deterministic versions",
             "metric exporter behind the periodic reader: scripted stub that delays, fails, obeys or ignores cancellation",
             "application: generated writer, callback, flusher and collector goroutines"]
ASSUME = ["statement-level interleaving (and read/write splitting within a statement) of instrumented packages is sequentially consistent; weaker memory orders are covered only by the data-race check",
          "packages outside the instrumented set run atomically between scheduling points"]

def core(pid, title, statement, over, qtext, why, files, mech, rule, observe=None, state=None, **kw):
    d = dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, rule=rule,
             observe=observe or [], state=state or [], harness=kw.pop("harness", "core"), deps=kw.pop("deps", EXPO), stubs=kw.pop("stubs", []),
             race=kw.pop("race", False), quick_s=kw.pop("quick_s", 35), thorough_s=kw.pop("thorough_s", 1200),
             real=kw.pop("real", CORE_REAL), stubbed=kw.pop("stubbed", CORE_STUB), assume=kw.pop("assume", ASSUME), note=kw.pop("note", ""))
    d.update(kw)
    return d

P = []
exec(open(os.path.join(ROOT, "tools", "props.py")).read())

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P + NA:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": p.get("state", []),
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p.get("observe", []), "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "bash check.sh setup", "checks": [], "not_applicable": [
        {"property": p["id"], "reason": p["reason"]} for p in NA],
        "notes": "No hooks are added to /repo: the simulated build is produced by rewriting the working tree's sources into a go build overlay (sim/simgen). Replay a violation with: bash check.sh replay FILE."}
    conf = {}
    for p in P:
        man["checks"].append({"property": p["id"], "quick_cmd": f"bash check.sh {p['id']} quick", "thorough_cmd": f"bash check.sh {p['id']} thorough",
                              "technique": p.get("technique", "deterministic simulation with seeded schedule and fault search"),
                              "level": "exploration",
                              "level_note": (p["note"] + " " if p["note"] else "") + "Seeded search over plans, interleavings, stalls and faults of the real code in one process; no completeness claim. Trusts the source rewriter, the simulated sync/time runtime and the reference oracle in sim/harness."})
        conf[p["id"]] = {k: v for k, v in dict(harness=p["harness"], deps=p["deps"], stubs=p["stubs"], race=p["race"], quick_s=p["quick_s"], thorough_s=p["thorough_s"],
                         rule=p["rule"], real=p["real"], stubbed=p["stubbed"], assumptions=p["assume"], batch_ms=p.get("batch_ms", 700)).items()}
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    json.dump(conf, open(os.path.join(ROOT, "sim", "props.json"), "w"), indent=1)
    for p in P + NA:
        assert len(p["title"]) <= 80, p["title"]
main()
