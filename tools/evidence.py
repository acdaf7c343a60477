"""Adds up what the workers measured and writes evidence/<property>.json."""
import json, os

RULE = {
 "C01": "A case is a generated configuration, a prelude and 2-4 threads of encode/decode calls on one tokenizer, run under one seeded schedule (random walk, PCT, conflict- or synchronisation-directed), a third of them with an allocation failing in one call; each call's result is compared with a run of its own. Non-trivial: at least one switch between threads inside the library; distinct by the hash of the schedule (thread, point, next thread) and results.",
 "C02": "A case is 1-4 threads loading, using, extending, moving and destroying tokenizers of their own (several configurations), in one process, under one seeded schedule, cold or warm; each tokenizer's results are compared with a process in which it is the only one. Distinct by the hash of schedule and results.",
 "C03": "A case is a history of 10-40 encode, decode, add and move calls, some failing for memory or on their argument, one in a few with more than 10,000 new words; each result is compared with a fresh process that only loads, repeats the additions and makes that call. Distinct by the hash of all results.",
 "C04": "A case is a history and one target call whose allocations fail in turn (once, in bursts, from one on); outcome, leaks over repeated failure and all later results are compared with the run without failure. Distinct by the hash of outcomes; non-trivial: at least one allocation failed.",
 "C05": "A case is a history of additions with one addition whose allocations fail in turn, or a fault-free history with ids followed over it; state afterwards (every id decoded, probes encoded) is compared with the run in which the call was not made, and after the retry with one in which it never failed. Distinct by the hash of outcomes.",
 "C06": "A case is a configuration and a set of load attempts: every system call the load makes meets every fault kind in turn (some with a second fault), or its allocations fail in turn; then the intact file is loaded. Distinct by the hash of outcomes; non-trivial: a fault fired.",
 "C07": "A case is a configuration layout and a range of cut positions, each loaded by file or string with the rest missing, zero or blank; the intact configuration is loaded afterwards. Distinct by the hash of outcomes.",
 "C08": "A case is a configuration with 1-4 storage corruptions (bits, bytes, numbers, blocks lost, repeated, swapped), 4-8 variants each, loaded and, if that works, used. Distinct by the hash of outcomes.",
 "C09": "A case is a history of calls on texts whose letters and blanks depend on the locale, run under changing C and C++ locales (changed between calls, and by another thread at chosen accesses inside calls) and in the C locale. Distinct by the hash of results.",
 "C10": "A case is a BPE configuration with dropout and a policy for the random draws (all low, all high, alternating, at the threshold, seeded); tokens are checked against the word, and the two extremes against the model without dropout and against single characters. Distinct by the hash of draws and results.",
 "C11": "A case is a long history (ever new words, failing calls, repeated calls, varied calls); live bytes are measured after each of four equal rounds, then whole life cycles are checked for leaks. Distinct by the hash of results.",
 "C12": "A case is a history of binding calls on the simulated JVM with one JVM call or allocation failing in turn; borrowed strings and arrays, pending exceptions, escaping exceptions, leaks and later results are checked. Distinct by the hash of outcomes; non-trivial: a fault fired.",
 "C14": "A case is a configuration, 3-8 calls whose text (code units flipped, inserted, repeated, not code points), ids or token contents (any bytes) are damaged, some also running out of memory, and 1-3 ordinary calls made after each of them; compared with the same ordinary calls without the damaged ones, with another machine state, and in part with the two kinds of calls in threads of their own under a seeded schedule. Distinct by the hash of results.",
 "C15": "A case is 2-4 simulated Java threads making binding calls on handles they share, some failing in the JVM or for memory, under one seeded schedule; each result is compared with the call made alone, and the JVM checks each thread's references, buffers and pending exceptions. Distinct by the hash of schedule and results.",
 "C13": "A case is a configuration and call history run in one machine state and again in five others (heap contents, placement and reuse, clock and jumps, entropy, environment, calling thread). Distinct by the hash of results.",
}
LEVEL = {k: "exploration" for k in RULE}
FAULTS = {
 "alloc_faults": "allocations failed",
 "flips": "locale changes inside calls",
}
REAL = ["/repo/src/*.cpp and headers, compiled from the working tree with -fsanitize=thread instrumentation whose run-time is the simulator", "libsimdjson 3.6.4", "ICU 74 (libicuuc, libicui18n)", "libstdc++"]
STUB = {
 "C12": ["the JVM behind JNIEnv (simulated)", "the heap (simulated)"],
 "C15": ["the JVM behind JNIEnv and its threads (simulated)", "the heap (simulated)"],
 "C06": ["the file system below /simfs (simulated at the system-call boundary)", "the heap (simulated)"],
 "C07": ["the file system below /simfs (simulated at the system-call boundary)", "the heap (simulated)"],
 "C10": ["the random draws (hook)", "the heap (simulated)"],
}
DEF_STUB = ["the heap, locks, thread scheduler, clocks, entropy and environment seen by the library (simulated)"]
ASSUME = [
 "libsimdjson and ICU are trusted; their one-time initialisation happens before the runs, their internals are not scheduling points, and no allocation is made to fail below ICU's regular-expression engine, which does not survive that",
 "the code is compiled by clang++ -O1; simdjson.h is patched to add field::escaped_key() and one missing null check",
 "sequentially consistent interleavings at instrumented accesses; data races are found by vector clocks on the schedules run",
]

def merge(outs):
    tot = {"counters": {}, "hashes": set(), "samples": [], "infra": []}
    for o in outs:
        try:
            d = json.load(open(o, errors="replace"))
        except (OSError, ValueError):
            continue
        for k, v in d.items():
            if k == "counters":
                for a, b in v.items():
                    tot["counters"][a] = tot["counters"].get(a, 0) + b
            elif k == "hashes":
                tot["hashes"].update(v)
            elif k == "samples":
                tot["samples"] += v
            elif k == "infra":
                if v:
                    tot["infra"].append(v)
            elif k == "violation":
                pass
            elif k in ("wall",):
                tot[k] = max(tot.get(k, 0), v)
            elif k == "planned":
                tot[k] = v
            elif isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
    for k in ("cases", "runs", "alloc_faults", "sim_ns", "switches", "events", "decisions", "conflicts", "sync_ops", "threads", "mutex_blocks", "flips", "allocs", "ops", "loads", "repeats", "static_inits", "planned"):
        tot.setdefault(k, 0)
    return tot, tot["infra"]

def write(verif, prop, tier, seed, tot, wall, search, workers, viol):
    c = tot["counters"]
    fired = {n: tot[k] for k, n in FAULTS.items() if tot[k]}
    for k, v in sorted(c.items()):
        if k.startswith("fs fault ") or k in ("failed calls of the simulated JVM", "corrupted configurations", "torn configurations") or k.startswith("locale "):
            fired[k] = v
    other = {k: v for k, v in sorted(c.items()) if k not in fired}
    h = max(search, 0.01) / 3600.0
    cov = {
        "evaluations": int(tot["runs"]),
        "distinct_nontrivial": len(tot["hashes"]),
        "rule": RULE[prop],
        "samples": tot["samples"][:4] or ["(no sample kept)"],
        "cases": int(tot["cases"]),
        "cases_planned": int(tot["planned"]),
        "cases_run_twice_and_equal": int(tot["repeats"]),
        "simulated_runs_per_hour": int(tot["runs"] / h),
        "seeds_per_hour": int(tot["cases"] / h),
        "seeds": "case i of VERIF_SEED s is generated from s * 1000003 + i; cases 0..%d, spread over %d workers" % (max(0, int(tot["planned"]) - 1), workers),
        "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
        "instrumented_accesses": int(tot["events"]),
        "faults_fired": fired,
        "allocations_seen": int(tot["allocs"]),
        "calls_made": int(tot["ops"]) + int(tot["loads"]),
        "schedule": {"distinct_interleavings": len(tot["hashes"]) if tot["switches"] else 0, "context_switches": int(tot["switches"]), "decisions": int(tot["decisions"]), "threads": int(tot["threads"]),
                     "synchronisation_operations": int(tot["sync_ops"]), "waits_for_a_lock": int(tot["mutex_blocks"]), "accesses_to_memory_two_threads_touch": int(tot["conflicts"]), "first_use_initialisations": int(tot["static_inits"])},
        "probes": other,
        "components_real": REAL,
        "components_stubbed": STUB.get(prop, DEF_STUB),
    }
    d = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL[prop], "coverage": cov, "assumptions": ASSUME, "wall_s": round(wall, 2), "violations": 1 if viol else 0}
    if viol:
        d["violation"] = {"replay": viol[0], "kind": viol[1]["kind"], "message": viol[1]["msg"]}
    os.makedirs(os.path.join(verif, "evidence"), exist_ok=True)
    p = os.path.join(verif, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.rename(p + ".tmp", p)
