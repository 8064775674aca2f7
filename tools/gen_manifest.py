"""Writes MANIFEST.json from the properties and the campaigns that exist."""
import json
import pathlib
import sys

sys.path.insert(0, str(pathlib.Path(__file__).parent.parent))
from sim import props  # noqa: E402

HERE = pathlib.Path(__file__).parent.parent
NOTE = "Seeded search, no proof: absence of a violation in the executions explored. Trusts the third-party stack (jax, equinox, plum, unxt, astropy) and the simulator; "
NOTES = {
    "C01": "preemption between bytecode instructions of coordinax code only.",
    "C02": "interruptions land on source lines of coordinax code.",
    "C03": "objects observed through public attributes, before, during (at library instructions) and after calls.",
    "C04": "histories are generated from the call catalogue in sim/gen.py.",
    "C05": "transformations jit, vmap, forward, reverse and their nestings over the call catalogue.",
    "C06": "the settings listed in sim/ambient.py, compared after each call and at context switches.",
    "C07": "the catalogue of invalid requests in sim/gen.py; domain rules of sim/rules.py.",
    "C08": "every registered conversion between built-in classes; plain calls.",
    "C09": "restored objects compared field by field and through operations in other processes.",
    "C10": "faults fire at load of a module, before it executes.",
    "C11": "extension templates of sim/ext.py.",
    "C12": "arrays counted after a full collection; containers reachable from coordinax modules.",
    "C13": "budget: a multiple of the library steps of the same call alone.",
    "C14": "the environments of sim/confs.py.",
    "C15": "agreement with sim/model.py within single-precision tolerances.",
}
NA_NEED = "A pure function of its arguments with no schedule, fault, clock, I/O or history for the simulator to vary: {}."
NA = {
    "C20": "deciding it is input search over values (property testing or proof), not simulation; C15 only samples it",
    "C21": "deciding it is input search or symbolic proof of Jacobians, not simulation",
    "C22": "deciding it is input search or symbolic proof, not simulation",
    "C23": "an algebraic law over operator values, settled by input search, not simulation",
    "C24": "a numerical comparison over frame parameters, settled by input search, not simulation",
    "C25": "a metamorphic relation between two inputs, settled by input search, not simulation",
    "C26": "an algebraic law of equality over values, settled by input search, not simulation",
    "C27": "an array-semantics law over values and indices, settled by input search, not simulation",
    "C28": "closed-form scalar identities, settled by input search or proof, not simulation",
    "C29": "a value round trip through a third-party type, settled by input search, not simulation",
    "C30": "algebraic laws over values, settled by input search or proof, not simulation",
    "C31": "closed-form identities over values, settled by input search or proof, not simulation",
}
rows = [json.loads(x) for x in open(HERE / "properties.jsonl")]
checks, na = [], []
for r in rows:
    i = r["id"]
    if i in props.CHECKS:
        cmd = f"/opt/venv/bin/python -B check.py {i} --tier "
        checks.append({"property": i, "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                       "technique": "deterministic simulation with fault injection: " + props.TECH[i], "level": "exploration", "level_note": NOTE + NOTES[i]})
    else:
        na.append({"property": i, "reason": NA_NEED.format(NA[i]) if i in NA else "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "Replay: /opt/venv/bin/python -B check.py --replay FILE. Checks import the working tree of /repo in forked processes; nothing is installed or written there."},
          open(HERE / "MANIFEST.json", "w"), indent=1)
open(HERE / "MANIFEST.json", "a").write("\n")
