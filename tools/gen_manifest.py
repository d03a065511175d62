#!/usr/bin/env python3
"""Writes MANIFEST.json. Run after adding a check."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
built = set()
for f in os.listdir(f"{ROOT}/harness/src"):
    if f.startswith("p_"):
        built |= set(re.findall(r'Prop \{ id: "(C\d+)"', open(f"{ROOT}/harness/src/{f}").read()))
T = {
 "C01": "property-based testing of whole runs (generated instance, configuration, seed, stop) against a from-scratch validity and cost oracle",
 "C02": "stateful property-based testing: generated runs, invariant over the history of reports and everything the search holds",
 "C03": "property-based testing: round trip of generated solutions and runs through the written solution file",
 "C04": "structured grammar-based generation of instance files, parse compared with the generated model (metamorphic layout changes)",
 "C05": "property-based differential testing of all distance stores against a reference distance",
 "C06": "property-based testing of neighbour lists against a sorted reference",
 "C07": "property-based differential testing of the evaluation against a naive recomputation",
 "C08": "property-based testing of both splits against an exhaustive dynamic program",
 "C09": "model-based testing: generated walks of moves on linked routes against a list model",
 "C10": "property-based testing of SWAP* against exhaustive enumeration",
 "C11": "property-based testing of local search runs with invariant and termination oracle",
 "C12": "property-based testing: brute-force neighbourhood oracle at the local optimum, and search for a path of allowed reference moves to it",
 "C13": "stateful property-based testing: rounds of ruin and recreate judged by a set-based reference",
 "C14": "property-based and statistical testing of acceptance, cooling and single search steps",
 "C15": "property-based differential testing of the distance against its definition, metamorphic relations",
 "C16": "stateful model-based testing of population histories against a reference population",
 "C17": "stateful property-based testing: generated genetic algorithm runs, every individual checked at every step",
 "C18": "metamorphic testing: generated runs repeated in the same and in other processes, traces compared",
 "C19": "property-based testing of generated decompositions and merges against the definition",
 "C20": "property-based differential testing of configuration layers against a reference merge, in process and by command line",
 "C21": "stateful property-based testing of generated runs with counted generations and restarts",
 "C22": "structured fuzzing of whole runs and components, with overflow checks and AddressSanitizer",
 "C23": "property-based testing of sectors against bit sets over all angles",
 "C24": "property-based testing of whole runs against an exact dynamic program",
 "C25": "stateful property-based testing of penalty updates against a reference controller",
 "C27": "metamorphic property-based testing: pairs of generated runs that must take the same course",
 "C28": "metamorphic property-based testing: the same instance in another unit, form or store, runs compared step by step",
 "C29": "stateful and statistical property-based testing: generated runs with counted ruins, repairs and elite phases",
 "C30": "property-based testing of the program built for the DIMACS challenge and of its script, output parsed and judged by the oracle",
 "C31": "statistical property-based testing: generated solutions, thousands of ruins each, against exactly enumerated probabilities",
 "C32": "statistical and stateful property-based testing of the random helpers",
 "C33": "property-based testing of generations without education: each child explained by two members of the population, frequencies against enumerated ones",
 "C34": "fault-injecting property-based testing: damaged and edited files against a reader that takes the format by the letter; runs of the program",
 "C35": "property-based testing: each sub-problem explained by a customer, frequencies over many draws against the enumerated ones, differential testing of the program against the library",
 "C36": "model-based testing: captured log lines against figures worked out from the populations at every step",
 "C26": "property-based testing of the fleet against exact bin packing",
}
NOTE = ("Sampled, not proved: holds on every generated case (seeded, counted in the evidence file, "
        "non-trivial cases by the stated rule). Trusts the reference model in harness/src/oracle.rs "
        "and the generators in harness/src/inst.rs; failures are shrunk to a replay file.")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} quick",
                 "thorough_cmd": f"bash run.sh {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": T[p["id"]],
                 "level": "exploration", "level_note": NOTE} for p in props if p["id"] in built],
     "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in built]}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
print(len(m["checks"]), "checks", [x["property"] for x in m["not_applicable"]])
