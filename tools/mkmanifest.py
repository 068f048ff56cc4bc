#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run it to regenerate the file)."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
LANG = ("explicit enumeration of a bounded space of programs and texts, each executed on the real code and compared with a reference interpreter",
        "Every case of the stated bounded space is executed on the real parser and evaluator; trusted: the reference interpreter mc/src/lang.rs. Inputs beyond the bounds are not covered.")
HTTP = ("explicit enumeration of a bounded space of messages, answers, deliveries and faults, each executed on the real code over modelled sockets and compared with a reference",
        "Every case of the stated bounded space is executed on the real code; trusted: the reference mc/src/http.rs, the Avro reader mc/src/avro.rs, the model of sockets, clocks and randomness rt/amrt.c. Inputs beyond the bounds are not covered.")
TLS = ("explicit enumeration of server identities, deliveries and manipulations of the byte stream, each executed on the real client against a real TLS server over modelled sockets",
       "Every case of the stated bounded space is executed on the real code; trusted: the rustls server of the harness, certificate table in mc/src/tls.rs, socket model rt/amrt.c. Cryptography is executed, not modelled.")
RUNS = ("stateless search of the real program under a controlled scheduler: depth first enumeration of thread schedules, timer and signal moments and I/O faults up to a deviation bound, with an exhaustive set of small scenarios",
        "Every execution within the stated bounds is run on the real binary and judged by a model of one thread; trusted: the model in mc/src/runs.rs, the runtime rt/amrt.c that owns scheduling, time, sockets, files and signals. More threads and more deviations than the bound are not covered; the locks and channels of the standard library are taken as atomic at their system calls.")
CLI = ("explicit enumeration of histories, input deliveries, directory trees and arguments, each executed on the real binary under a controlled environment and compared with a reference",
       "Every case of the stated bounded space is executed on the real binary; trusted: the reference interpreter mc/src/lang.rs and the runtime rt/amrt.c that answers reads, directory listings, clocks and sockets. Inputs beyond the bounds are not covered.")
C = {}
for i in ["C01", "C02", "C03", "C04", "C05", "C06", "C07"]:
    C[i] = LANG
for i in ["C10", "C11", "C12", "C13", "C14", "C15", "C16", "C19", "C20", "C28"]:
    C[i] = HTTP
C["C18"] = TLS
for i in ["C21", "C22", "C23", "C24", "C25", "C26", "C27", "C29", "C17", "C32"]:
    C[i] = RUNS
for i in ["C08", "C09", "C30", "C31", "C33"]:
    C[i] = CLI
NA = {}
checks, na = [], []
for i in ids:
    if i in C:
        t, n = C[i]
        checks.append({"property": i, "quick_cmd": f"bin/check {i} quick", "thorough_cmd": f"bin/check {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "bin/build all", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the system calls of the real code are interposed (rt/amrt.c). See DESIGN.md."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
