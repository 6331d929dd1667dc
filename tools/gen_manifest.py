#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. The claimed properties are those listed here."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "abstract interpretation of SSA (path- and context-sensitive typestate/dataflow over value numbers)"
T = {
 "P01": AI+"; success paths of Verify must carry a signature check over the whole payload",
 "P02": AI+"; identity-binding facts on success paths of Verify",
 "P03": AI+"; loop summaries of the signer count on success paths of Verify",
 "P04": AI+"; conflict facts on success paths of Verify",
 "P05": AI+"; every storage insertion dominated by a successful Verify of the same value",
 "P06": AI+"; taint from request body to outgoing request, sanitised by Verify",
 "P07": AI+"; typestate 'stored' before 'sent'",
 "P08": AI+"; negative blacklist lookup before store/relay/sign",
 "P09": AI+"; obligation 'blacklisted' after storing a proof, effect analysis of the proof collections",
 "P10": AI+"; check-then-insert atomicity and equivocation obligations",
 "P11": AI+"; check-then-append atomicity and complete-scan summaries",
 "P12": AI+"; value-flow equality of keys, types, periods and payloads",
 "P13": AI+"; static lockset analysis (Eraser-style) of every shared collection, per thread kind",
 "P14": AI+"; static lockset analysis (Eraser-style) of every shared collection, per thread kind",
 "P15": AI+"; static lockset analysis (Eraser-style) of every shared collection, per thread kind",
 "P16": AI+"; lock typestate (held at exit, double acquire) and acquisition-order graph",
 "P17": AI+"; insertions and forwards dominated by verification, identity and revocation-hash facts",
 "P18": AI+"; obligation 'accuse the owner' on every failure path of a query",
 "P19": AI+"; negative proof lookup before query and before signing an accusation",
 "P20": AI+"; value flow of every proof list into the written update, order of write and wipe",
 "P21": AI+"; client state changes dominated by verification, identity and revocation-hash facts",
 "P22": AI+"; facts required on every accepting path of certificate verification",
 "P23": AI+"; monotonicity of the revocation vectors (only OR-merges, no replacement)",
 "P24": AI+"; field-wise value flow through save and load",
 "P25": AI+"; pool insertions dominated by verification, no loss between signature and use",
 "P26": AI+"; list summaries relating tree, proofs, tree head and sent messages",
 "P27": AI+"; embedding of proofs dominated by verification against a filed tree head",
 "P28": AI+"; secrecy taint from private keys to requests, responses, files and logs",
 "P29": AI+"; field-wise value flow through the composition of conversion, encoding, decoding and conversion back",
 "P30": AI+"; provenance of every key written into a generated configuration",
 "P31": AI+"; reachability of terminating calls from network input, nil-response and bounds typestate",
 "P32": AI+"; extraction and matching of routes, requests and message types across components",
 "P33": AI+"; value-flow equality of signed bytes, payload, key and names at every publication",
 "P34": AI+"; provenance of period labels, evaluated over the finite domain of all 60 minutes",
 "P40": AI+"; obligations raised at every storage insertion and discharged by sends, signatures and combinations, per thread and asynchronous continuation",
 "P41": AI+"; obligation to store every decoded object, discharged only by storage or by facts that make it superfluous",
 "P42": AI+"; completeness of loops (for-all summaries) over the entity lists, obligations on answers and received objects",
 "P43": AI+"; must-marks over a pass of the periodic function including the timers it starts",
 "P44": AI+"; every rejecting exit must carry a fact that is false of honest objects",
 "P46": AI+"; every refusing exit must carry a fact that is false of good input, every accepting one must have entered all items",
 "P47": AI+"; typestate of announcement, request and delivery, comparison of the hash formulas of announcer and receiver",
 "P37": AI+"; typestate of every data file: written beside the target, complete, renamed",
 "P49": AI+"; field-by-field inverse check of the extension codec, invariant of the counter over all stores",
 "P48": AI+"; field-by-field provenance of every generated file (list summaries in the symbolic sizes), against the directory it is put into",
 "P51": AI+"; field-by-field relation of the file written to the file read, per role and number",
 "P50": AI+"; intake obligations discharged by storing or by a fact that is false of valid input",
 "P45": AI+"; field-by-field inverse check of encoder and decoder terms",
 "P39": AI+"; comparison of the message formulas (hash, concatenation, wire fields, compression) of producer and consumers",
}
LN = ("Decides the rule on all abstract paths from the entry point (all branches, loops to a fixpoint, goroutines, timers and HTTP handlers as separate threads). "
      "Trusts go/types and go/ssa, the models of library calls listed in DESIGN.md, and that distinct opaque pointers do not alias; recursion is followed to depth 5.")
NA = {
 "P35": "liveness under timing: needs bounds on message delay, clock skew and the connectivity of the deployed overlay, none of which is in the source; no sound static argument bounds them",
 "P36": "whether an honest entity answers in time depends on run-time delays and timers; the source has no bound a static analysis could use",
 "P38": "unforgeability rests on the hardness assumptions of RSA and BLS and on the C library; not a property of this source text",
}
import sys
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ids = [p["id"] for p in props]
checks = []
na = []
for i in ids:
    if i in T:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "technique": "static analysis: "+T[i], "level": "other", "level_note": LN})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. All checks are one analyzer (analyzer/, Go, x/tools SSA) run per property."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
