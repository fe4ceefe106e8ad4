#!/usr/bin/env python3
"""Single source of /verif/MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
from hc.run import table

TRUST = (" Assumes: the external libraries (ortools, pandas, numpy, requests, multiprocessing) behave as documented; "
         "code is reached through the public entry point analysed. Obligations touching a construct outside the modelled "
         "Python/pandas subset are reported as UNDECIDED in the evidence, never as held.")
FLOW = "static value-flow analysis (abstract interpretation to normal forms): "
TECH = {
    "C01": FLOW + "objective coefficients per element kind against the documented cost sum",
    "C02": FLOW + "terms of every balance equation, key and sign, against the flow-balance law",
    "C03": FLOW + "storage recurrence equation of every storage and step",
    "C04": FLOW + "ratio equation of every converter source",
    "C05": FLOW + "bounds and identity of every decision variable",
    "C06": FLOW + "writes into the result against element, scenario and step read",
    "C07": FLOW + "event order and binder scope of solver creation, model building and solving; shared-state escape",
    "C08": FLOW + "status test dominates every read of a solution value",
    "C09": FLOW + "raise conditions dominating every store into the study",
    "C10": FLOW + "index and flatten functions of every numerical-value class, and the factory's dispatch",
    "C11": FLOW + "composition of export and import normalised to identity field by field",
    "C12": FLOW + "composition of export and import normalised to identity field by field",
    "C13": "static ownership/alias analysis: roots of every mutation reachable from the JSON conversions",
    "C14": "static ownership/alias analysis: roots of every mutation reachable from solve, analyzer and plots",
    "C15": "typestate over HTTP response values plus dominance of status checks (static value-flow)",
    "C16": FLOW + "row ranges, strides and column contents of every table write",
    "C17": FLOW + "filter predicates and table dispatch",
    "C18": "static ownership analysis: no chain step writes state reachable from an earlier step",
    "C19": FLOW + "normal form of the reported cost against the objective normal form",
    "C20": FLOW + "normal form of balance, remaining capacity and counts against their definitions",
    "C21": FLOW + "acceptance conditions of plugs, pipelines and the shuffler",
    "C22": "static ownership/alias analysis of composition and stage execution",
    "C23": FLOW + "normal form of each built-in stage",
    "C24": FLOW + "row selection term of every sampled timeline; reseed dominates draw in every task",
    "C25": FLOW + "query and slice normal form reaching each backend call",
    "C26": "typestate of worker pools: acquisition dominated by release on all exits",
    "C31": FLOW + "traces added to every figure as expressions of the data given, against the documented drawing",
    "C27": FLOW + "fields of every element stored by the builder against its arguments",
}
NA = {
    "C28": "optimality of the returned dispatch depends on the numerical behaviour of the external solver at run time; the static part (the model handed over is the documented one) is C01-C05",
    "C29": "quantifies over the behaviour of an external server that is not in the repository; the client side is C15",
    "C30": "statistical uniformity of random draws is a run-time quantity; the static part (whole rows, own index range, reseed per task) is C24",
}
t = table()
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in t:
        checks.append({"property": i, "quick_cmd": "python3 -m hc.run %s" % i,
                       "thorough_cmd": "python3 -m hc.run %s --tier thorough" % i,
                       "technique": TECH[i], "level": "other",
                       "level_note": "Holds for every input the abstraction covers, not for samples; decided on the source, nothing is executed." + TRUST})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q hc", "checks": checks, "not_applicable": na,
           "notes": "Checks read /repo's source with Python's ast module on every run; nothing of /repo is imported or executed."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
