#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the plans of the harness."""
import json,os,re
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(here,"properties.jsonl"))]
src=open(os.path.join(here,"harness/plans.go")).read()
body=src[src.index("var plans"):]
claimed=set(re.findall(r'^\t"(C\d\d)":',body[:body.index("\n}\n")],re.M))
PURE="Deterministic simulation does not apply: this is a pure function of its input (single goroutine, no clock, no I/O, no randomness, no callback fault, no interruption), so there is no schedule and no fault for a simulator to decide."
NOTE={
"C01":"Seeded exploration of client programs and schedules on the real locked matrix; every history is decided by a linearizability checker against an independent model (arithmetic responses: the same call alone on a fresh matrix). A second build runs the same under the race detector with the simulator's own synchronisation hidden from it. Sampling, not proof; at most 56 calls a history.",
}
DEF="Seeded exploration by deterministic simulation: every run executes the real library, instrumented from the working tree, under a scheduler that decides interleavings, cancellation instants, clock jumps and injected panics. Assumes that sampled workloads and schedules are representative; sequentially consistent interleaving between statements, plus the race detector in the race build."
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in claimed:
        checks.append({"property":i,"quick_cmd":f"bash bin/check.sh {i} quick","thorough_cmd":f"bash bin/check.sh {i} thorough","technique":"deterministic simulation with fault injection","level":"exploration","level_note":NOTE.get(i,DEF)})
    elif i.startswith("N"):
        na.append({"property":i,"reason":PURE})
    else:
        na.append({"property":i,"reason":"The technique applies; the check is not built yet."})
m={"version":1,"setup_cmd":"bash bin/setup.sh","checks":checks,"not_applicable":na,
"notes":"The checks instrument a scratch copy of /repo's working tree at build time (see DESIGN.md), so /repo carries no hooks. Replay a violation with: bash bin/replay.sh FILE"}
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
