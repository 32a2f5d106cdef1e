#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and their check modules."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {
    "C01": "property-based testing: random signals and words, against a signed-permutation reference model and the group laws",
    "C02": "property-based testing: random signals, differential between a group and its subgroups",
    "C03": "property-based testing: bitwise comparison with a numpy reference on random shapes, axes and dtypes",
    "C04": "property-based testing: reference model of the action on group signals and composition of actions",
    "C05": "property-based testing: differential against a plain-numpy group convolution",
    "C06": "property-based testing: metamorphic relation (transform before / after the layer)",
    "C07": "property-based testing: differential against a plain-numpy transposed convolution and metamorphic relation",
    "C08": "property-based testing: differential against a plain-numpy pooling and metamorphic relation",
    "C09": "property-based testing: differential against numpy reductions and metamorphic relation (invariance)",
    "C10": "property-based testing: brute-force padding oracle, directly and through layers",
    "C11": "property-based testing: differential between the two data formats",
    "C12": "stateful model-based testing: random histories of calls, failing calls (injected faults) and weight changes",
    "C13": "property-based testing: symbolic against concrete shapes, models against their layers one by one",
    "C14": "property-based testing: configuration and file round trips",
    "C15": "property-based testing: metamorphic relation on random networks before and after random training; gradients against differences",
    "C16": "property-based testing: check_equivariance against a numpy computation of the deviation",
    "C17": "property-based testing: inverses and numpy references on random tensors",
    "C18": "property-based testing and fuzzing of names, options and signal shapes, in random call histories",
    "C19": "property-based testing: differential against the Keras layers, and of every Keras option on every group",
    "C20": "property-based testing: differential between batches and entries, compiled and eager, used and fresh layers",
    "C21": "property-based testing: metamorphic relation (translations and group elements before / after the layer)",
    "C22": "property-based testing: derived groups and their chains against the transformations they must consist of and the ready-made groups",
    "C23": "property-based testing of concurrent histories: random operations per thread under gated and free schedules, against each operation alone",
    "C24": "property-based testing: random user-defined groups against signed-permutation and numpy reference models",
    "C25": "property-based testing: random programs of JAX transformations against numpy definitions and their differences",
    "C26": "property-based testing: the generators and oracles of the other properties, on another Keras backend with write-protected inputs",
}


def assumptions(pid):
    with open(os.path.join(HERE, "gcheck", "props", pid.lower() + ".py")) as f:
        for node in ast.parse(f.read()).body:
            if isinstance(node, ast.Assign) and node.targets[0].id == "ASSUMPTIONS":
                return ast.literal_eval(node.value)
    return []


with open(os.path.join(HERE, "properties.jsonl")) as f:
    properties = [json.loads(line) for line in f]
checks = []
for p in properties:
    pid = p["id"]
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"python3 check.py {pid}",
            "thorough_cmd": f"python3 check.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": TECHNIQUE[pid],
            "level": "exploration",
            "level_note": "Random search (seeded, shrunk to a replay file), no proof: " + "; ".join(assumptions(pid)) + ". "
            "Trusts numpy, Hypothesis, Keras' own layers and the JAX CPU backend.",
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); from gcheck import boot; boot.unpack_deps()\"",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks: everything is observable through the public interface. Repairs are 'fix:' commits in /repo, listed in known_findings.json.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
