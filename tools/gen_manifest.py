#!/usr/bin/env python3
"""Write MANIFEST.json from the list of properties and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "puck is compiled natively against a deterministic simulation of the lunatic runtime (trusted); "
T = {
 "C01": ("generated requests rendered to bytes by an independent writer, parsed from streams cut at arbitrary points", ""),
 "C02": ("grammar-aware mutation of request bytes against a reference parser", ""),
 "C03": ("round trip of generated requests through the writer, an independent reader and the parser, with partial and failing writes", ""),
 "C04": ("generated responses written to partial and failing streams, read back by an independent parser and by the library", ""),
 "C05": ("generated and mutated response bytes against a reference parser, cut at arbitrary points", ""),
 "C06": ("model-based sequences of reads on bodies over segmented and failing sources", ""),
 "C07": ("model-based sequences of builder and body operations", ""),
 "C08": ("generated matchers and URLs against a reference matcher", ""),
 "C09": ("generated route tables and requests against a reference router, with recording handlers", SIM),
 "C10": ("generated clients and schedules, run in a deterministic scheduler over the real server", SIM),
 "C11": ("fault injection (malformed, truncated, stalled, reset, panicking) under generated schedules", SIM),
 "C12": ("whole exchanges between the library's client side and its servers under generated schedules, against the generated messages and an independent reader", SIM),
 "W01": ("generated handshakes against an independent reference of RFC 6455", SIM),
 "W02": ("generated frames from an independent encoder, decoded from streams cut at arbitrary points", ""),
 "W03": ("generated messages sent over partial and failing streams, read back by an independent decoder", SIM),
 "W04": ("generated and mutated sequences of fragments against a reference reassembler", ""),
 "W05": ("model-based histories of client frames and server calls under generated schedules", SIM),
 "W06": ("hostile byte streams from structured mutation, with allocation and progress measured", ""),
 "W07": ("generated concurrent sessions and faults under generated schedules, against a model of each session and an independent frame reader", SIM),
 "L01": ("generated pairs of trees, diff applied by the library and by a reference, with invariants at each change", ""),
 "L02": ("generated histories of renderings, driven through the real server loop and the shipped script in node on a small DOM", SIM + "the DOM is a small model run in node's vm (trusted); "),
 "L03": ("model-based histories of events and inputs, driven through the shipped script and the real server loop", SIM + "the DOM is a small model run in node's vm (trusted); "),
 "L04": ("generated HTML trees converted and compared with a reference conversion", "the HTML builder crate is a stand-in with the original's interface; "),
 "L05": ("fault injection into generated live sessions under generated schedules", SIM),
 "E01": ("generated histories of concurrent clients of the real example under generated schedules, checked against a sequential list (linearisability)", SIM),
 "E02": ("model-based histories of several browsers using the real example under generated schedules", SIM + "the DOM is a small model run in node's vm, the HTML builder crate a stand-in (trusted); "),
}
DONE = set("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 W01 W02 W03 W04 W05 W06 W07 L01 L02 L03 L04 L05 E01 E02".split()) | set(os.environ.get("EXTRA", "").split())
checks, na = [], []
for l in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(l)["id"]
    if p not in DONE:
        na.append({"property": p, "reason": "the check is being built"})
        continue
    t, n = T[p]
    checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": "property-based testing: " + t, "level": "exploration",
                   "level_note": "Random search with fixed work from VERIF_SEED plus enumerated boundary cases; no exhaustiveness. Trusts: " + n + "the oracle written from the property and the cited RFCs."})
m = {"version": 1, "setup_cmd": "./check.sh --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks use public items only. Known findings: known_findings.txt. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
