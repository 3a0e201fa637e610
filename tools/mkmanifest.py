#!/usr/bin/env python3
"""Writes MANIFEST.json from one table."""
import json, os
V=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T={
"C01":"deterministic simulation: seeded thread scheduler preempting real fits at every instrumented load, store, basic block, allocation, write and component call; results compared bit for bit with each fit alone",
"C02":"deterministic simulation with crash injection: panics at seeded arithmetic operations and component calls, histories of further fits with the same objects on several simulated threads; bitwise comparison with fresh fits",
"C03":"deterministic simulation with I/O fault injection below libc: seeded errors, short, empty and stalled writes on the progress output; bitwise comparison with quiet fits",
"C04":"deterministic simulation with budgets as crash points: seeded chains of growing iteration and epoch budgets of one fit, objectives compared by an independent reference model",
"C05":"deterministic simulation with transient component faults (wrong finite gradients, prox steps, values, distances in seeded windows); optimality certified afterwards by an independent reference model; progress within a bounded number of steps once faults stop",
"C06":"deterministic simulation with persistent faults and data corruption; component calls counted against the budget, memory accesses checked against live allocations, process status and shape checked",
"C07":"deterministic simulation with a monitor behind the component seams checking every call as invariants while the run proceeds, under seeded interleavings and faulty component answers",
"C08":"deterministic simulation of histories: seeded clock, entropy, environment, allocator contents and placement, thread placement, earlier fits, in-place modification and address reuse; bitwise comparison with the fit alone in a fresh process",
"C09":"deterministic simulation of Python fits: exceptions injected at seeded Python-level steps and in the caller's arrays, histories of further calls; comparison with a reference model of the estimator and with a fresh interpreter",
"C10":"deterministic simulation with a simulated allocator: rounds of seeded completed, failed and abandoned fits over simulated threads; live blocks after rounds compared with those of the warm-up",
"C11":"deterministic simulation of Python threads: a seeded scheduler decides every switch between Python-level steps of concurrent fit and predict calls; results compared with sequential ones, coefficients with those of completed fits",
"C12":"deterministic simulation of successive Python processes sharing a simulated disk: crashes at seeded trace events and in mid-write, full disks and exceptions over histories of fits, saves, loads and copies, compared with a reference model of each estimator and file and with fits in fresh processes",
"C13":"deterministic simulation of threads and output: a seeded scheduler preempting reporting fits at and right after calls of the output machinery, with short, interrupted and stalled writes and panics; the recorded byte stream checked to be a line-by-line interleaving of what each fit writes alone",
"C14":"deterministic simulation with process forks: the simulated process forks at seeded moments between steps of the other threads' fits; only the forking thread lives on in the child, whose fits are compared bit for bit with fits alone and must end",
"C15":"deterministic simulation of Python threads with process forks at seeded points of a seeded schedule; the child's fits, predictions and returned estimator are compared with those of a fresh interpreter and with the completed fits the history allows",
"C16":"deterministic simulation of re-entrancy: seeded component calls of a running fit run further fits on the same simulated thread (also failing, abandoned by injected panics, nested again, interleaved with another thread); every fit compared bit for bit with the fit alone",
"C17":"deterministic simulation of asynchronous handlers: at seeded Python-level steps of calls, handlers run fits, predictions and copies in the same thread, with injected exceptions and a second thread under a seeded scheduler; outcomes compared with a fresh interpreter, coefficients with the completed fits the history allows",
}
N={
"N01":"a pure function of one data set: nothing is scheduled, timed, written or shared, so no schedule or fault can decide it (the runs of C04 and C05 nevertheless judge dense and sparse fits by the same independent reference objective)",
"N02":"a pure function of one data set: no schedule, time, I/O or fault for it to depend on (C04 and C05 judge both kinds of fits by reference objectives)",
"N03":"closed forms of real numbers: no schedule, time, I/O or fault for them to depend on",
"N04":"closed forms of real numbers: no schedule, time, I/O or fault for them to depend on",
"N05":"a closed form of the data: no schedule, time, I/O or fault for it to depend on",
"N06":"a pure predicate of the hyper-parameters: no schedule, time, I/O or fault for it to depend on",
"N07":"a pure function of the data on both sides: no schedule, time, I/O or fault for it to depend on (C09, C11 and C12 compare Python fits with fits in fresh interpreters)",
"N08":"a pure function of one small matrix: no schedule, time, I/O or fault for it to depend on",
}
NOTE="Seeded sampling, not exhaustive. Quick: about a minute of simulated runs on 8 cores after an incremental build of 30 s; thorough: 12 minutes of runs."
ids=[json.loads(l)["id"] for l in open(os.path.join(V,"properties.jsonl"))]
have=[i for i in ids if i in T and (i not in ("C09","C11","C12","C15","C17") or os.path.exists(os.path.join(V,"pysim/run.py")))]
checks=[dict(property=i,quick_cmd="bash check.sh "+i,thorough_cmd="VERIF_TIER=thorough bash check.sh "+i,technique=T[i],level="exploration",
  level_note=NOTE,evidence_file="evidence/%s.json"%i) for i in have]
na=[dict(property=i,reason=N.get(i,"check under construction")) for i in ids if i not in have]
m=dict(version=1,setup_cmd="bash setup.sh",
 hooks=dict(guard="none: /repo contains no hook; the checks instrument it from outside with compiler flags",
   enable="tools/rustc-wrap is RUSTC_WRAPPER and adds load/store/basic-block callbacks to the sparseglm, ndarray and harness crates; the allocator, libc calls and component traits are the other seams",
   source_commits=[]),
 checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
open(os.path.join(V,"MANIFEST.json"),"a").write("\n")
