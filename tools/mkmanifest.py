#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below and properties.jsonl.
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over "
CLAIMED = {
 "C01": ("schedules of concurrent lookups, judged by a reference model and the race detector", "plain and race-detector builds"),
 "C02": ("histories of lookups over catalogs that fail at any call, judged by a reference model", "sequential histories"),
 "C03": ("schedules and catalog faults, callback log compared with a reference model", "plain and race-detector builds"),
 "C04": ("storage faults at any point of any load, judged by a reference model", "sequential histories"),
 "C07": ("storage faults, panics and schedules, judged on the simulated file log", "plain build"),
 "C08": ("map orders, missing and broken files and refusing loaders, judged by a reference model", "sequential histories"),
 "C09": ("file trees and files vanishing during a load, judged by the documented candidate order", "sequential histories"),
 "C10": ("histories of failing and succeeding constructions, judged by a reference model", "sequential histories"),
 "C11": ("schedules of concurrent constructions with storage faults, judged by a reference model and the race detector", "plain and race-detector builds"),
 "C05": ("deliveries of the same bytes, outcomes compared with each other and with the document", "sequential"),
 "C06": ("torn and corrupted catalog files under step and memory budgets", "sequential, with an address-space limit"),
 "C12": ("writer failures, short writes and panics at any byte, judged against the complete output", "one or several tasks with their own writers"),
 "C13": ("map iteration and insertion orders, outcomes compared with each other", "sequential"),
 "C14": ("crash points while saving, reloaded content compared with what was saved", "sequential"),
 "C15": ("clock readings, jumps and zones, judged by an independent calendar model", "sequential histories on a simulated clock"),
 "C16": ("schedules of humanizer use and creation, compared with isolated answers, and the race detector", "plain and race-detector builds"),
 "C17": ("histories and schedules in which callers overwrite everything handed out or taken in, judged by a reference model and the race detector", "plain and race-detector builds"),
 "C18": ("panics and re-entrant calls in user code under concurrent schedules, judged by a reference model", "plain and race-detector builds"),
}
NA = {
 "C30": "pure function of language and number: no concurrency, time, I/O or multi-party behaviour that a simulator could vary",
 "C31": "pure function of a string and a width: nothing for a simulator to schedule or to make fail",
 "C32": "pure function of a number: nothing for a simulator to schedule or to make fail",
 "C33": "pure functions (x/text matcher, formatting of a given instant): nothing for a simulator to schedule or to make fail; the clock-dependent part is C15",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1,
 "setup_cmd": "bash bin/check.sh setup",
 "checks": [], "not_applicable": [],
 "notes": "No hooks are committed in /repo: tools/simgen instruments the working tree at build time and go build -overlay compiles the copy. See DESIGN.md."}
for i in ids:
    if i in CLAIMED:
        what, note = CLAIMED[i]
        m["checks"].append({"property": i, "quick_cmd": "bash bin/check.sh %s -tier quick" % i, "thorough_cmd": "bash bin/check.sh %s -tier thorough" % i,
          "technique": T + what, "level": "exploration",
          "level_note": "Seeded search, not exhaustive: a violation is real and replayable, silence covers the runs counted in the evidence file (%s). Trusts the reference model, the instrumenter and the simulated environment." % note})
    elif i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
