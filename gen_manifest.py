#!/usr/bin/env python3
"""Writes MANIFEST.json. Run after changing the list of claimed properties."""
import json, sys
TECH = "deterministic simulation: seeded search over schedules and injected faults of the real headers on a simulated platform"
COMMON = (" Search over seeded simulated executions of the real headers (every atomic, plain access, pthread/sem/clock/allocation call goes to the simulator): "
          "no violation in the runs reported in the evidence file; it samples, it does not enumerate. Trusted: the simulator's model of the platform (pthread, semaphores, clocks, C++11 memory model as store histories), the reference model named in DESIGN.md.")
NOTE = {
 "C01": "Ownership ledger checked at every successful acquisition, all lock types.",
 "C02": "Reader/writer ledger at every acquisition, and at every quiescent instant readers admitted when only readers hold.",
 "C03": "Vector-clock race detection on all plain accesses of library and client data; loads may read any store the memory model still allows.",
 "C04": "Quiescence oracle: nothing runnable, lock free, thread still blocked; plus completion within a bounded number of fair, fault free steps.",
 "C05": "Nesting ledger, up to 66000 levels, mixed acquisition forms.",
 "C06": "try forms: no parking, truthful failure, no residue.",
 "C07": "Deadline oracle on virtual clocks (three clocks, four duration types), clock jumps, leaps and timer/notify races.",
 "C08": "Arrival-order oracle and a FIFO reference model compared at every quiescent instant.",
 "C09": "Arrival-order oracle and a task-fair reference model compared at every quiescent instant.",
 "C10": "Arrival-order oracle and a phase-fair reference model compared at every quiescent instant.",
 "C11": "Quiescence oracle: no blocked reader while no writer owns.",
 "C12": "Overtaking and hold-back oracle; writers that give up by time-out, deadlock report or exception.",
 "C13": "Misuse programs against a reference model of legal use, three build variants (throwing, aborting, no deadlock detection).",
 "C14": "Waiting-graph oracle at every quiescent instant.",
 "C15": "Waiting-graph oracle evaluated at every event while a request is pending.",
 "C16": "Allocation failures inside checked mutex operations; residue checks on every object afterwards.",
 "C17": "Permit conservation, no waiting while permits are free, generic and POSIX implementations.",
 "C18": "Deadline oracle, EINTR, clock jumps, conservation for timed acquisition.",
 "C19": "Latch reference model.", "C20": "Barrier phase reference model, including an aged phase counter.",
 "C21": "Barrier reference model with drops. One known finding is listed (arrive_and_drop waits).",
 "C22": "Reference model of shared_lock ownership over mutex wrappers that count and throw.",
 "C23": "Reference model of scoped_lock over up to four mutexes of mixed types with throwing operations.",
 "C24": "Lifetime oracle: freed memory is poisoned, any later access by library code is a violation.",
 "C25": "Counts library steps between yields under a non preemptive scheduler.",
 "C26": "Native wrappers on simulated POSIX, Win32, GCD and os_unfair_lock back ends with failing and interrupted calls.",
 "C28": "Ownership ledger over operations mixed from wrapper calls and platform calls on native_handle(), simulated POSIX, Win32 and os_unfair_lock.",
 "C29": "Per-object ledgers for up to five locks and semaphores of equal or mixed types, private objects, latch and barrier gates.",
 "C31": "Every allocation and native object of the library is accounted per run; nothing may be left after all objects are destroyed, and a live idle lock holds a bounded amount.",
 "C30": "Bounded boxes used through the standard wrappers only: conservation of values, consistency of critical sections, no thread left waiting for a true condition.",
}
claimed = [l.strip() for l in open("/verif/claimed.txt") if l.strip()]
m = {"version": 1, "setup_cmd": "python3 check.py build",
 "hooks": {"guard": "none", "enable": "no hooks in /repo: the headers are compiled unchanged with -fsanitize=thread and linked against our own __tsan_*, pthread, sem, clock and operator new", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p, "thorough_cmd": "python3 check.py %s --tier thorough" % p,
             "technique": TECH, "level": "exploration", "level_note": NOTE[p] + COMMON} for p in claimed],
 "not_applicable": [{"property": "C27", "reason": "Interface shape (member names, types, constexpr, noexcept, deleted copies) is a compile-time fact: there is no schedule, clock, fault or history in it for a simulation to vary."}],
 "notes": "See DESIGN.md. Known and fixed defects: known_findings.txt."}
for p in sorted(NOTE):
    if p not in claimed: m["not_applicable"].append({"property": p, "reason": "its simulation family is not built yet (work in progress)"})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
