#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
T = {
 "C01": ("deterministic simulation of a deployment (network, disk, crash, clock faults) with seeded schedule search; refinement against a reference model of the descriptions, bounded liveness after faults stop",
         "Seeded search, no proof. Judges every document a consumer obtains against an independent reference model of builder and vocabulary; liveness within a bounded number of polls once faults stop."),
 "C02": ("deterministic simulation of gateway chains with faults, seeded search; member-by-member refinement against an independent reference reader at every hop",
         "Seeded search, no proof. Trusts the reference reader in sim/core; a hop may only drop unknown members or add specified defaults."),
 "C03": ("deterministic simulation of publishing nodes, seeded search; every published text judged by an independent strict JSON and vocabulary checker",
         "Seeded search, no proof. Trusts the vocabulary table in sim/core."),
 "C04": ("simulated byte streams (fragmentation, interruption, truncation, failure at drawn bytes), seeded search against the whole read",
         "Seeded search, no proof; cut positions are sampled, not enumerated."),
 "C05": ("simulated sinks (short, interrupted, full, failing, crashing at drawn bytes), seeded search against the whole write",
         "Seeded search, no proof; fault positions are sampled, not enumerated."),
 "C06": ("simulated processes with controlled hash seeds and restarts, seeded search; agreement between processes and inequality of variants",
         "Seeded search, no proof. The hash seed seam is std's getrandom."),
 "C07": ("simulated concurrent modules under a seeded scheduler with repetition and death; verdict compared with an executable model of the rules",
         "Seeded search, no proof. Trusts the model of the rules in sim/core/src/rules.rs."),
 "C08": ("simulated concurrent modules under a seeded scheduler with repetition and death; refinement against an executable model of the builder",
         "Seeded search, no proof. Trusts the model fold() in sim/core/src/gen.rs."),
 "C09": ("simulated nodes with every extension combination and extension code that fails or panics at drawn calls, seeded search against the reference reader",
         "Seeded search, no proof. Two test extensions, three protocol bindings and eight combinations of them."),
 "C10": ("deterministic simulation of protocol nodes with faults and drawn binding values, seeded search against binding vocabularies written down independently",
         "Seeded search, no proof. Trusts the binding vocabularies in sim/core."),
 "C11": ("seeded scheduler over threads sharing Things, switching at every transfer and extension call, with injected failures and panics; results compared with sequential ones",
         "Seeded search over interleavings at yield points, no proof; switches inside straight-line library code are not explored."),
 "C12": ("deterministic simulation with skewed and jumping clocks, seeded search; instants compared with an independent calendar",
         "Seeded search, no proof. Trusts the calendar in sim/core/src/dates.rs."),
 "C13": ("simulated corruption of documents under way and at rest (structure and bytes), seeded search against an independent parser and reference reader",
         "Seeded search, no proof. Where implementations may differ (repeated members, lone surrogates, huge numbers) only absence of panics and relayability is judged."),
 "C14": ("simulated chains of rewriting intermediaries, seeded search; equality of the Things read by nodes with different extensions",
         "Seeded search, no proof. Rewritings are those listed in the property."),
 "C18": ("deterministic simulation of nodes that take Things apart, send the parts over a faulty network and put them together through crashes, seeded search; equality with the whole, reference reader for damaged parts",
         "Seeded search, no proof. Parts are those the public types allow to detach; places and cuts are sampled."),
 "C19": ("simulated exchange of messages that carry descriptions, with cuts, failures and damage on the way and gateways that repack, seeded search; equality with the descriptions read alone, reference reader for damaged ones",
         "Seeded search, no proof. Nine kinds of messages around the descriptions; cuts and damage are sampled."),
}
NA = {
 "C15": "A pure function of two values: no concurrency, time, I/O or multi-party behaviour for a simulation to decide; bounds that travel in documents are covered by C07.",
 "C16": "A pure data structure used within one call: nothing a schedule, fault or clock could change; what extension lists do to documents is covered by C09, whose nodes also take the lists apart and together.",
 "C17": "A pure function of an enumeration: nothing a schedule, fault or clock could change; the names in documents are covered by C03, the messages of refusals by C07.",
}
m = {
 "version": 1,
 "setup_cmd": "cd sim && cargo build --quiet --offline --profile release",
 "checks": [{
   "property": p,
   "quick_cmd": f"./check.sh {p}",
   "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
   "technique": t,
   "level": "exploration",
   "level_note": n,
 } for p, (t, n) in T.items()],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: the seams are the library's own (serde streams, builder calls, extension traits) and std's getrandom, overridden in the harness binary. Replay a violation with ./check.sh replay <file>.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
