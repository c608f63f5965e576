#!/usr/bin/env python3
import json, os, subprocess
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FE, EX = "fault_enumeration", "exploration"
CLAIMED = {
 "C01": (EX, "random satisfied programs, generators, random-source faults and schedules; oracle: independent model of the program"),
 "C02": (FE, "every attack family on random programs with a Byzantine prover and message tampering; oracle: independent circuit evaluation says the statement is false, so the verifier must refuse"),
 "C14": (EX, "the collected circuit of each gadget over small fields, adversary's assignment space searched completely per case, random cases; oracle: the relation computed independently; honest witnesses on large curves"),
 "C15": (EX, "complete adversary search over small fields, Byzantine provers on large ones; oracle: integer arithmetic"),
 "C09": (EX, "random leaf lists and edits; oracle: independent tree model, node by node"),
 "C10": (EX, "random trees, positions, edge-case rerandomizations and schedules; oracle: acceptance by a verifier holding the root, and the opening"),
 "C12": (EX, "random trees and tuples of distinct positions, edge-case rerandomizations and schedules; oracle: acceptance by a verifier holding the roots, and the openings"),
 "C11": (FE, "Byzantine membership provers with every kind of deviation at every level, including complete level-by-level forgeries; oracle: the published commitment opens to no leaf (nor mirror image) under the scalar the forger used"),
 "C13": (FE, "Byzantine batched provers with every kind of deviation at every level and across members, including cancelling ones and points off the curve; oracle: some published commitment opens to no leaf"),
 "C04": (FE, "random batches with every kind and combination of invalid members, including errors chosen to cancel; oracle: each proof's verdict on its own and the empty batch"),
 "C16": (EX, "simulated network of wallets and ledgers with message, crash, disk and timer faults; oracle: reference ledger (exactly-once, equal roots, conservation, progress after faults stop)"),
 "C18": (EX, "the same job under random worker counts, schedules, preceding and interleaved jobs, fresh processes and the build without threads; oracle: byte equality of all results"),
 "C17": (FE, "dishonest payers with the library's and an own prover, thieves, mixed or changed messages, dishonest mints; oracle: integer amounts and ownership known to the simulator"),
 "C03": (EX, "random exchanges with changed statements, messages and histories; oracle: the transcript recorded at its seam (every published element appended before the challenges that follow it, labels and order equal on both sides) and refusal of anything changed"),
 "C05": (FE, "stream faults, truncations and changed bytes on encodings of proofs, paths and transactions; oracle: byte equality, announced sizes, one encoding per object"),
 "C06": (FE, "corrupted, shortened, extended, spliced and wrongly shaped messages in place of proofs, singly and in batches, under a memory meter and an allocator that refuses absurd requests; oracle: no panic or abort, peak memory in proportion, only the honest proof accepted"),
 "C07": (EX, "honest provers rewound under many seeds of source and challenges; oracle: linear algebra recovers all blindings and masks from their answers: nonzero, unrelated, disjoint between runs, of full rank and spread over 64 runs"),
 "C08": (EX, "random parameter requests, capacities and schedules; oracle: independence of request order, prefix consistency, pairwise distinct nonzero points, refusal of too small parameters"),
}
import sys
claimed_file = os.path.join(here, "tools", "claimed.json")
if os.path.exists(claimed_file):
    CLAIMED.update({k: tuple(v) for k, v in json.load(open(claimed_file)).items()})
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hooks if l.split(" ", 1)[1].startswith("hooks:")]
m = {
 "version": 1,
 "setup_cmd": "./run.sh setup",
 "hooks": {"guard": "cfg(curve_trees_sim)", "enable": "RUSTFLAGS/--cfg curve_trees_sim, set in /verif/sim/.cargo/config.toml", "source_commits": hooks},
 "checks": [{
   "property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"./run.sh {p} --thorough",
   "evidence_file": f"evidence/{p}.json",
   "technique": "deterministic simulation with fault injection: seeded search over inputs, schedules and faults",
   "level": CLAIMED[p][0], "level_note": CLAIMED[p][1]} for p in props if p in CLAIMED],
 "not_applicable": [{"property": p, "reason": "check under construction"} for p in props if p not in CLAIMED],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
