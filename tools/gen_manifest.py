#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = "deterministic simulation with fault injection: seeded search over workloads, fault sequences and interleavings of the instrumented library, "
CLAIM = {
 "C01": ("histories of documents and cut-short sources against one prepared validator per engine, judged by an executable reference matcher",),
 "C02": ("injected source errors, source panics and user-function errors or panics at drawn callbacks; later verdicts judged by the reference matcher",),
 "C03": ("scheduler-controlled map iteration order, all engines compared with the reference matcher",),
 "C04": ("seeded statement-level interleavings of concurrent tasks with a schedule-controlled race detector; results compared with the same task run alone",),
 "C05": ("histories and statement-level interleavings of read-only operations; deep snapshots and verdicts compared, race detector under the controlled schedule",),
 "C06": ("simulated clock with jumps and context changes between validations, judged by the reference matcher",),
 "C07": ("a monitoring source enforces the cursor protocol during validations and encodings, with injected failures",),
 "C08": ("long seeded histories of repeated uses with injected failures, and inputs with repeated parts; executed statements and reachable values measured by the simulator must not grow",),
 "C10": ("seeded cursor schedules against a model of the document for all formats",),
 "C11": ("histories of walks, resets and corrupt documents on one parser, compared with a new parser",),
 "C12": ("byte faults injected into documents, seeded cursor schedules, step bounds and guard bytes",),
 "C13": ("retained values re-read after later steps and re-initialisation; input snapshots",),
 "C14": ("torn documents: cut at a drawn byte, events delivered before the error compared with the intact document",),
 "C15": ("simulated reader: drawn chunking, empty reads and read errors, compared with a reference delivery",),
 "C16": ("wrapped and unwrapped sources driven by the same seeded schedule with injected failures; walkers with simulated randomness, writer and clock",),
 "C20": ("source failures injected at drawn calls during encoding; unencodable values",),
 "C21": ("histories of encodings with drawn scratch buffers and failed encodings; output read back by independent readers",),
 "C30": ("corrupted grammar text, histories on one grammar parser object compared with a new one, step bounds",),
 "C31": ("semantically broken grammars prepared and used in seeded histories with canary grammars, step bounds",),
}
NA = {
 "N01": "a pure function of one syntax tree: no schedule, time, I/O, fault or history for a simulator to control",
 "N02": "pure functions of their arguments (the clock- and context-dependent ones are covered by C06): nothing for a simulator to control",
 "N03": "a pure function of one combinator expression: no schedule, time, I/O, fault or history for a simulator to control",
 "N04": "algebraic laws of pure functions: no schedule, time, I/O, fault or history for a simulator to control",
 "N05": "a pure function of one buffer: no schedule, time, I/O, fault or history for a simulator to control",
 "N06": "a pure function of one grammar; its observable consequence (verdicts) is decided under C03, simplification in isolation offers nothing for a simulator to control",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
import re
src = "".join(open(os.path.join(V, "sim/harness", f)).read() for f in os.listdir(os.path.join(V, "sim/harness")))
have = set(re.findall(r'register\(&Prop\{ID: "(\w+)"', src))
checks, na = [], []
for i in ids:
    if i in CLAIM and i in have:
        checks.append({"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
            "technique": TECH + CLAIM[i][0], "level": "exploration",
            "level_note": "seeded sampling of the real code; fixed number of runs in the quick tier, 700 s on 8 cores in the thorough tier; no exhaustiveness is claimed"})
    elif i in NA:
        na.append({"property": i, "reason": NA[i]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
