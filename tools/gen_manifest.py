#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NA = {"C28": "RingBufferSimple used from one thread is a sequential pure data structure: no schedule, clock, I/O or failing call that a simulator could control takes part in the "
             "property, so simulation with fault injection would only be ordinary random testing. (Its use inside the concurrent containers is decided by C07, C12 and C15.)",
      "C29": "A property of which programs compile; nothing is executed, so there is no run to simulate and no fault to inject."}
WHAT = {
 "C01": "takes, gives and count queries recorded and checked for linearizability against a counter with bounds",
 "C02": "every run is driven to quiescence and the linearizability search must explain every caller that is still waiting; callbacks throw while others wait",
 "C03": "callback entries, exits and throws are checked for overlap, count stability and exactly-once, and the history with failed calls removed must be linearizable",
 "C04": "initial counts and maxima including 0, 1, 2^32-2 .. 2^64-1; linearizability against the bounded counter, overflow being an outcome of the model",
 "C05": "abort placed anywhere; the history must be linearizable against the counter with a terminal aborted state and nobody may remain blocked",
 "C06": "destruction with blocked callers and bounded stalls; every access to released storage is detected by the simulated heap",
 "C07": "puts and gets with unique values checked for linearizability against a FIFO",
 "C08": "requests from 1 upwards; the bounded FIFO model must explain every caller that waits, and the number held is compared with the request",
 "C09": "abort and flush anywhere; flushed values compared in order with the remainder of a linearization",
 "C10": "early users, priming, a second priming, abort and flush interleaved; outcomes checked against the lifecycle model",
 "C11": "shadow memory: each live object is write-protected against everyone but its owner and its address range compared with all other live ones and the arena",
 "C12": "create and release across threads with throwing constructors, checked for linearizability against a counter of free blocks",
 "C13": "constructor and destructor calls counted per address; scalar blocks inspected at hand-out",
 "C14": "snapshots at any point compared with the interval of values the overlapping calls permit, and with the exact minimum at quiescence",
 "C15": "enqueues and dispatches checked for exactly-once, content and real-time FIFO order",
 "C16": "held messages counted against the request; every waiting caller must be explained by the bounded queue model",
 "C17": "constructors, wake-up callbacks and dispatches throw anywhere; slots are counted by refilling the queue afterwards",
 "C18": "dispatch intervals compared with lock ownership; moves, self-assignment, unlock and throwing dispatches",
 "C19": "abort anywhere, including inside constructors and dispatches; outcomes, message lifetimes and process survival checked",
 "C20": "purge and destruction after any history with blocked callers; message lifetimes, heap leaks and late accesses checked",
 "C21": "snapshots at any point compared with the interval of values the overlapping calls permit",
 "C22": "name queries at any point compared with the set of names permitted by the dispatch history",
 "C23": "error codes injected into pthread mutex calls; ownership model checked at every step",
 "C24": "fixed-priority single-processor scheduling with and without inheritance as the mutex asks for; the time a high-priority thread waits behind a medium one is measured",
 "C25": "the simulated heap refuses every request after construction and reports the first one made by the library",
 "C26": "the k-th allocation, or the k-th mutex or condition variable initialisation, of the constructing thread fails, for every k, in every component and configuration, while other components are in use",
 "C27": "FastTrack-style happens-before race detection over every instrumented access, using the memory order each atomic asks for, plus shadow-heap checks",
 "C30": "the example's own sources run unchanged against simulated threads, clock, processor count and random device; its printed progress is checked against exactly-once, work-conserving completion",
 "C31": "components used, constructed and destroyed concurrently by separate threads are each compared with a sequential model of the component alone, while others block or run user code for 1000 s",
 "C32": "multi-stage pipelines with throwing stages, aborts, purges and destruction; every object is counted at every stage and at the end",
 "C33": "no stalls are injected and the clock moves only when nothing can run; virtual time must be unchanged when every caller has finished or is legitimately waiting",
 "C34": "seeded mixes of user code that sleeps 1000 virtual seconds, re-enters its component or throws; calls of other threads that take virtual time, and any deadlock, are violations; capacity and lifetimes are counted at the end",
}
checks = []
for p in props:
    i = p["id"]
    if i in NA:
        continue
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "technique": "deterministic simulation with fault injection: seeded search over schedules, workloads and faults",
        "level": "fault_enumeration" if i == "C26" else "exploration",
        "level_note": WHAT[i][0].upper() + WHAT[i][1:] + ". Real library code under a simulated scheduler, clock, heap and pthread layer; sampling, not exhaustive. Assumes: preemption at "
                      "instrumented accesses and synchronisation calls only, sequentially consistent values (weak orders judged by the race detector), g++ -O1 code.",
    })
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "hooks": {"guard": "none", "enable": "No hooks in /repo: the checks compile /repo/src unchanged with -fsanitize=thread instrumentation and supply the instrumentation runtime, "
               "the pthread functions, the clock and the heap themselves.", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "Replay a reported violation with: bash replay.sh <replay file>. Other seeds: VERIF_SEED=n. Determinism self-test: python3 check.py --determinism."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
