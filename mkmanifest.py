import json
T="deterministic simulation: seeded search over %s, judged by %s"
D={
"C01":("stream deliveries, short reads, EINTR and wrong file sizes","comparison with the undisturbed read"),
"C02":("failing, invalid and panicking streams at every offset","unchanged database, exact error and a fault-free retry"),
"C03":("open, read and text failures of mandatory includes","a reference model of the statements before the failure"),
"C04":("open failures of optional includes and failures after opening","a reference model that skips or stops"),
"C05":("include trees, evals, conditionals and delivery noise","an executable reference model of the statement semantics"),
"C06":("a concurrent writer that changes files between system calls","a reference model fed with the bytes at each open"),
"C07":("errors and panics injected at every step of a read","the set of statement prefixes of a reference model"),
"C08":("histories of reads, snapshots, restores, additions and faults","observations recorded when each snapshot was taken"),
"C09":("thread schedules with preemption at log calls, system calls and allocations","the same work done alone, and deadlock detection"),
"C10":("engine and process directories, decoys, moves and removals","a reference model and the absolute path of every open"),
"C11":("errors, panics and full descriptor tables during include trees","the recorded system-call history"),
"C12":("truncations, include cycles, interruption storms and stalled readers","a bound on steps per byte of input"),
"C13":("hash seeds, clocks, environments, log levels and process history","byte-for-byte equality of everything visible"),
"C14":("histories of failing, cut and interrupted reads with changed settings","a brand-new engine holding the same database"),
}
NOTE="Sampled, not exhaustive: no violation in the number of seeded runs given in the evidence. All of hastur and its dependencies run for real down to libc; the file system, clock, randomness, stream, log sink and thread schedule are simulated. "
X={
"C05":"Trusts the reference model in sim/src/model.rs for the text it accepts; text it does not know is counted and skipped.",
"C03":"Trusts the reference model for the effect of the statements before the failure.",
"C04":"Trusts the reference model for the effect of the other statements.",
"C06":"Trusts the reference model; the writer acts only between steps of the engine.",
"C07":"Trusts the reference model for the effect of each statement; atomicity is judged at step granularity.",
"C09":"Preemption only at log calls, system calls, futex waits and allocations; no weak-memory behaviour.",
"C10":"Trusts the reference model for the effect of the statements.",
"C12":"The step bound is a constant times the input size, far above what was measured; processor time of a run is capped as well.",
}
na={
"P01":"Expansion of a text is a pure function of the text and the variables: no schedule, time, I/O or fault takes part, so there is nothing for a simulator to decide (the effects of expansion that depend on history are in C05, C08 and C14).",
"P02":"The location of a piece of text is a pure function of the input text; no nondeterminism to control.",
"P03":"Sensitivity is a pure function of the text and the variables; only its determinism is a matter of simulation, and C13 covers that.",
"P04":"An in-memory data structure with pure operations: no schedule, time, I/O or fault.",
"P05":"Splitting text is a pure function of the text; how the text arrives is covered by C01.",
"P06":"Splitting a rule line is a pure function of the line.",
"P07":"Panic-freedom over all texts is a statement about pure input; a simulator adds nothing over a fuzzer (panics of the engine are in range of C07 and C12 where they come from faults).",
"P08":"Walking a tree is a pure in-memory operation without any nondeterminism.",
"P09":"An order relation on values: algebra, no execution to simulate.",
}
props=[json.loads(l) for l in open('properties.jsonl')]
m={"version":1,"setup_cmd":"./check.sh build","checks":[],"not_applicable":[],
"notes":"No hooks in /repo: every seam is at libc symbols, the stream, the log facade and the global allocator, all outside the crate. Replay a violation with target/release/hsim replay FILE. Repairs are recorded in KNOWN_FINDINGS.txt; there is no open finding."}
for p in props:
    i=p['id']
    if i in D:
        m["checks"].append({"property":i,"quick_cmd":"./check.sh %s quick"%i,"thorough_cmd":"./check.sh %s thorough"%i,"evidence_file":"evidence/%s.json"%i,"technique":T%D[i],"level":"exploration","level_note":NOTE+X.get(i,"")})
    else:
        m["not_applicable"].append({"property":i,"reason":na[i]})
json.dump(m,open('MANIFEST.json','w'),indent=1,ensure_ascii=False)
