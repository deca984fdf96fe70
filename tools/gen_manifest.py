import json
ids=[json.loads(l) for l in open('/verif/properties.jsonl')]
T="deterministic simulation with fault injection: "
tech={
"C01":"real dd_dlt process on simulated pipes; seeded short/interrupted reads and writes; output compared with an executable reference model",
"C02":"real dd_dlt process on simulated pipes and disks; seeded I/O errors, full disk, closed pipe at any point; prefix and exit-status check against the reference model",
"C03":"real loaders on a simulated file system; seeded short/interrupted/failing reads, failing opens and mappings, concurrent appends",
"C04":"simulated logger crashing at any byte; every reader compared with the stored history",
"C05":"simulated sources, logger and faulty disk; sequential reader compared with a reference model of resynchronisation",
"C06":"simulated logs with seeded disk faults; partitions checked against sequential reading of the reference model",
"C07":"real ripdlt process with its thread pool on a simulated scheduler (preemption at memory-access granularity), CPU count and file system; printed results compared with a sequential reference model",
"C08":"simulated crashes, torn writes and disk damage; panics, step budget and field bounds checked on every call and process",
"C09":"simulated logs with seeded damage; pattern and capture search compared with a reference model",
"C10":"simulated sources delivered in seeded interleavings and stopped anywhere; pipelines compared with a per-source reference model",
"C11":"real ripdlt process on a simulated file system with seeded I/O faults; printed figures compared with a reference model",
"C12":"simulated logger with crashes and restarts; fields read back compared with the fields written",
"C13":"seeded arrival orders, duplication and interleaving of periods; merged result checked for cover, separation and order independence",
"C14":"simulated logs with seeded disk faults; forward and backward search compared with a reference model",
"C15":"simulated logger and polling reader with seeded interleavings, torn appends, load faults and reader restarts; exactly-once and liveness check over the history",
"C17":"real dd_dlt processes that append to one log, killed or out of disk at any byte, then real ripdlt on it; figures compared with a reference model and with what was written",
"C18":"real dd_dlt and ripdlt processes on simulated pipes and files larger than the heap the simulator lets them have; exit status and figures compared with a reference model",
"C16":"simulated logger and faulty disk writing eight user-defined record formats; every reader, search and partitioning compared with a generic reference model",
}
note="Seeded sampling of the space of histories, schedules and faults, not exhaustive. Trusts the simulated operating system (simrt), the reference models (sim/src/model.rs, tested against the real code on every run) and the compiler; "
extra={"C07":"memory is sequentially consistent in the simulation, weaker orderings are not explored.",
"C01":"file and pipe semantics are those of Linux read/write on pipes and regular files.",
"C02":"file and pipe semantics are those of Linux read/write on pipes and regular files.",
"C03":"a file truncated by someone else while mapped (SIGBUS) is outside the property.",
}
checks=[]
for p in ids:
    i=p["id"]
    checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,"evidence_file":"evidence/%s.json"%i,
      "technique":T+tech[i],"level":"exploration","level_note":note+extra.get(i,"memory damage and hardware faults inside the reading process are not simulated.")})
json.dump({"version":1,"setup_cmd":"tools/build.sh","checks":checks,"not_applicable":[],
 "notes":"No hooks in /repo: the seam is the libc boundary (simrt) plus compiler instrumentation. Replay a violation with tools/replay.sh FILE [--trace]. Known findings and fixed defects: known_findings.txt."},open('/verif/MANIFEST.json','w'),indent=1)
