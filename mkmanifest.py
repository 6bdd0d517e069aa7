"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
NA = {
 "P01": "A pure function of (program, input): no schedule, clock, I/O or fault can change the outcome, so simulation has nothing to decide; differential testing or proof would be needed.",
 "P02": "A pure function of (program, level, input), no nondeterminism or fault to simulate. (C12 compares levels, but only on the ledger histories it simulates.)",
 "P03": "A static property of the type system over all programs; no multi-party, time or I/O behaviour.",
 "P04": "Pure encoding functions; no schedule or fault dimension.",
 "P05": "Pure arithmetic and hashing functions; no schedule or fault dimension.",
 "P06": "A pure predicate on data; no schedule or fault dimension.",
 "P07": "A pure mapping from declared types to a schema; no schedule or fault dimension.",
}
LEVEL_NOTE = "Seeded search over simulated runs (deterministic simulation with fault injection): no violation on the runs explored; not exhaustive. "
NOTES = {
 "C02": "Simulated sessions against a fresh-process oracle.",
 "C01": "Perturbed twin runs: hash seed, set order, cwd, environment, clock, randomness, directory order, project location.",
 "C03": "Real threads under a seeded line-level scheduler (SimThreads).",
 "C04": "Faults at every kind of I/O event and at internal trace points, then comparison with processes that never failed.",
 "C05": "SimDisk faults at numbered I/O events of artifact writes.",
 "C06": "SimDisk crashes and power-loss states, then load and re-dump.",
 "C07": "SimDisk directory orders, unrelated files, load/dump cycles.",
 "C08": "Seeded histories of bind, dump, crash, load steps against one-shot binding.",
 "C09": "Seeded import graphs and histories against a flattened single file.",
 "C10": "Commands on SimDisk with faults, exit status and residue checked.",
 "C11": "Simulated ledger with skewed clocks, delays, reordering and rollback against an integer-time model.",
 "C12": "Simulated ledger with replicas running Python and compiled scripts at several levels.",
 "C13": "Size-gate runs on a simulated build farm (processes, disk, network replaced).",
 "C14": "Programs with known diagnostics in sessions and threads under the scheduler.",
}
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "dst", "checks", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "deterministic simulation with fault injection: seeded schedule/fault search",
                       "level": "exploration", "level_note": LEVEL_NOTE + NOTES[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "The check for this property is not built yet.")})
m = {"version": 1, "setup_cmd": "./check setup", "checks": checks, "not_applicable": na,
     "notes": "All checks import opshin from /repo's working tree; no build step. ./check replay <file> reproduces a violation."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print([c["property"] for c in checks], [n["property"] for n in na])
