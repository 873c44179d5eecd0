import json
T="deterministic simulation with fault injection"
A=" Assumes sequentially consistent memory and preemption at basic-block edges, memory accesses (library code) and blocking calls; sampled schedules and workloads, not exhaustive."
notes={
"C01":"Seeded search over schedules of overlapping products on the real library, rayon and std; each result compared element by element with an exact reference product.",
"C02":"Seeded search over schedules of forward+backward passes; every operand's gradient compared with an exact reference reverse-mode differentiation.",
"C03":"Seeded search over schedules with stalls and spurious wake-ups; the simulator knows every blocked thread, so a deadlock is detected exactly, and no-progress as a bound on simulated steps under a fair scheduler after faults stop.",
"C04":"Seeded search over schedules of concurrent backward passes over random shared graphs; gradients compared with the reference sum of all passes.",
"C05":"Recorded invoke/return histories of accumulate/clear/read checked for linearizability against a sequential model, torn reads checked element-wise.",
"C06":"Panics injected at generated element operations and failures of generated thread creations; afterwards failure reporting, values, gradients, lock health, innocents' results and the retry are checked.",
"C07":"Snapshots of values and of read-out gradients re-checked throughout and after concurrent use, deep copies checked for isolation.",
"C08":"Panics injected throughout training steps and missing gradients; parameters checked all-or-none against a reference model, then retried.",
"C09":"Element-operation counts and live element buffers per cycle, counted by the instrumented element type and allocator, compared early versus late over generated histories with failed cycles.",
"C10":"Concurrent mini-batches on shared networks compared with a reference network trained sequentially.",
"C11":"Live element buffers counted by the allocator must return to zero and no element may be dropped twice after all handles are dropped on generated threads in generated order, panics included.",
"C16":"The same generated computations are run on several pools, schedules and callers inside one simulated run and compared bit for bit.",
"C17":"Independent generated computations run overlapped, one of them possibly failing by an injected fault; each compared with the reference and with its own solo outcome.",
"C18":"Generated histories of calls, faults and overlapping groups on the real library, compared after every step with a sequential reference model of values and gradients.",
"C19":"Generated mixtures of refused and valid requests by overlapping callers on shared tensors; every refusal must reach its caller, and values, gradients and all other results must be what the valid requests alone give.",
"C20":"Every caller has an element type of its own, so each element operation names its caller: it must run during one of that caller's calls, on its thread or in its pool; thread creations inside calls and element memory alive right after them are counted.",
"C21":"The C01, C02, C04 and C10 workloads with an element type whose operations, at generated points, wait in the pool or call the library; results compared with the same exact references.",
"C22":"One caller blocks for good at a generated element operation while the others work on the same tensors and on their own; it goes on only when they are done, so any waiting for it is an exactly detected deadlock or a bounded-progress failure; gradients compared with exact references.",
}
m={"version":1,"setup_cmd":"sh sim/build.sh",
"checks":[{"property":p,"quick_cmd":"./check.sh "+p,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+p,"technique":T,"level":"exploration","level_note":n+A} for p,n in notes.items()],
"not_applicable":[
{"property":"C12","reason":"pure function of its operands: element-wise arithmetic runs on the calling thread with no schedule, clock, I/O or fault in it; its use under concurrency and failure is covered by C04, C06 and C10"},
{"property":"C13","reason":"pure function of tensor and index; no schedule, clock, I/O or fault for a simulator to decide"},
{"property":"C14","reason":"pure function of the constructor's arguments; no schedule, clock, I/O or fault for a simulator to decide"},
{"property":"C15","reason":"pure function of the two operands; no schedule, clock, I/O or fault for a simulator to decide"}],
"notes":"No hooks in /repo: every seam is outside it (see DESIGN.md). Replay a failure with: target/debug/simwl replay <file>. Defects found and repaired are in known_findings.txt."}
json.dump(m,open(__file__.rsplit('/',2)[0]+'/MANIFEST.json','w'),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
