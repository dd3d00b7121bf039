#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the harnesses present in props/."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
 "C01": "property-based testing: round trips and differential against an independent codec, plus libFuzzer on the same harness",
 "C02": "property-based testing and libFuzzer: totality/purity/memory-safety of every decoder on generated and mutated bytes",
 "C08": "stateful property-based testing on a simulated TCP network with fault injection (choice-sequence shrinking, libFuzzer-driven)",
 "C11": "model-based property-based testing of histories on a simulated UDP network and clock (libFuzzer-driven as well)",
 "C12": "model-based property-based testing of production schedules on a simulated clock (libFuzzer-driven as well)",
 "C13": "model-based property-based testing of timeouts and closes on a simulated clock (libFuzzer-driven as well)",
 "C17": "property-based testing of answer schedules and faults on a simulated network against a reference list",
 "C19": "stateful property-based testing against a reference model of the log, including concurrent histories",
 "C20": "property-based testing of algebraic laws and round trips of endpoint values",
 "C21": "stateful property-based testing of socket histories on a simulated network with fault injection",
 "C23": "stateful property-based testing of request histories with late, partial and missing answers on a simulated network (libFuzzer-driven as well)",
 "C24": "stateful property-based testing: generated programs repeated on one set of objects, with descriptor and live-heap accounting on a simulated network",
 "C25": "property-based fault injection: generated programs against a device whose answers are damaged at every layer, executed twice with different memory contents (libFuzzer-driven as well)",
 "C26": "metamorphic property-based testing: two generated programs on unrelated objects, interleaved and nested, against each program alone (libFuzzer-driven as well)",
 "C27": "property-based testing of boundary and wrapping sizes in both directions (fits: exact bytes; does not fit: refused without effect) over encoders, routers, sessions, objects and I/O connections (libFuzzer-driven as well)",
 "C28": "property-based fault injection: generated programs in which a chosen allocation fails, the same objects examined afterwards (libFuzzer-driven as well)",
 "C29": "property-based testing: generated programs with damaged answers, the observable state of the process compared before, during and after every operation",
 "C30": "stateful property-based testing: histories on pools of values, each compared with a value replayed from its own history, under address sanitizer (libFuzzer-driven as well)",
 "C31": "property-based testing: generated refusals, discarded data and failures on a simulated network, an oracle reading the numbers back from the log and the exceptions, a printable-text invariant (libFuzzer-driven as well)",
 "C22": "stateful property-based testing of re-entrant callbacks on a simulated network, with address sanitizer",
}
DEFAULT = "property-based testing: generated histories against a scripted device and an independent codec/model, shrunk; the same harness driven by libFuzzer"
LEVEL = "Bounded random and coverage-guided search with an explicit oracle; no proof. Trusts the independent codec, the scripted device / simulated network and the stated generator ranges."
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", "p_%s.cpp" % i)):
        checks.append({"property": i, "quick_cmd": "./check %s --tier quick" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, DEFAULT), "level": "exploration", "level_note": LEVEL})
    else:
        na.append({"property": i, "reason": "no check is registered yet"})
m = {"version": 1, "setup_cmd": "command -v clang++ && command -v python3 && python3 -c \"compile(open('check').read(), 'check', 'exec')\"",
     "checks": checks, "not_applicable": na,
     "notes": "Checks build /repo/src with sanitizers into /verif/build (git-ignored) and need no hooks in /repo. './replay FILE' re-runs a replay file."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1); open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
