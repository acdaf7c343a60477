#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = {
 "C01": "deterministic simulation: seeded thread schedules over one shared tokenizer, vector-clock race detection, comparison with calls run alone",
 "C02": "deterministic simulation: seeded schedules of threads with tokenizers of their own, cold and warm, race detection, comparison with isolated processes",
 "C03": "deterministic simulation: seeded call histories with failing calls and moves, comparison with fresh tokenizers",
 "C04": "deterministic simulation with allocation-failure injection at each allocation of a call",
 "C05": "deterministic simulation with allocation-failure injection in additions; model of ids over the history",
 "C06": "deterministic simulation of the file system: system-call and allocation faults at each point of a load",
 "C07": "deterministic simulation of torn configuration writes: cut points, remainder missing, zeroed or blank",
 "C08": "deterministic simulation of storage corruption, with a checked heap",
 "C09": "deterministic simulation with locale changes between and inside calls, comparison with the C locale",
 "C10": "deterministic simulation with the random source under control (dropout draws)",
 "C11": "deterministic simulation of long call histories on a counted heap, with failing calls",
 "C12": "deterministic simulation of the JVM under the Android binding, with failing JVM calls and allocations",
 "C14": "deterministic simulation with corruption of what arrives in calls, combined with memory exhaustion and seeded thread schedules, on a checked heap",
 "C15": "deterministic simulation of Java threads calling the Android binding under seeded schedules, with failing JVM calls and race detection",
 "C13": "deterministic simulation: same history under different machine states (heap, clock, entropy, environment, thread)",
}
NOTE = ("Sampling by seeded search, not proof: a clean run says no violation occurred on the cases listed in the evidence. Real: all of /repo's library sources and the Android binding, compiled from the working tree, "
        "with libsimdjson, ICU and libstdc++. Trusted: those libraries' internals (no allocation fails below ICU's regular-expression engine), clang's instrumentation, the simulator in /verif/sim. Every violation is re-executed, minimised and replayed in a fresh process before it is reported.")
NA = {
 "N01": "A pure function of configuration and text, with no schedule, clock, fault or history in it, and its oracle (the Hugging Face library) is not available offline; simulation would be input generation in disguise.",
 "N02": "A pure function of configuration and text: no nondeterminism or fault for a simulator to decide.",
 "N03": "A pure function of configuration, settings and text: no nondeterminism or fault for a simulator to decide.",
 "N04": "A pure function of text and configuration: no nondeterminism or fault for a simulator to decide.",
 "N05": "A pure function of text: no nondeterminism or fault for a simulator to decide.",
}
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "python3 check.py build",
     "hooks": {"guard": "TOKENIZERS_SIM", "enable": "tools/build.py compiles /repo's sources with -DTOKENIZERS_SIM", "source_commits": hook},
     "checks": [], "not_applicable": [],
     "notes": "python3 check.py replay FILE runs a replay file; DESIGN.md describes the simulator and each check; known_findings.txt lists the defects found and repaired."}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
    else:
        lv = "exploration"
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": TECH[i], "level": lv, "level_note": NOTE})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
