"""Regenerates MANIFEST.json from the property modules present in props/."""
import ast, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
    "C90": "Pure numeric functions of their input: no schedule, clock, I/O, fault or interleaving for a simulator to decide.",
}
NOTE = {
    "exploration": "Seeded search over schedules/histories; a clean batch is evidence, not proof. ",
    "fault_enumeration": "Seeded search over fault placements and histories; a clean batch is evidence, not proof. ",
}
checks, na = [], []
for i in ids:
    p = os.path.join(V, "props", i.lower() + ".py")
    if os.path.exists(p):
        t = ast.parse(open(p).read())
        c = {}
        for n in t.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                try:
                    c[n.targets[0].id] = ast.literal_eval(n.value)
                except Exception:
                    pass
        checks.append(dict(
            property=i,
            quick_cmd="python3 check.py %s --tier quick" % i,
            thorough_cmd="python3 check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i,
            technique="deterministic simulation with fault injection: " + c.get("TECH", "seeded histories with injected crashes and disk errors against a reference model"),
            level=c["LEVEL"],
            level_note=NOTE[c["LEVEL"]] + "Assumes: " + "; ".join(c.get("ASSUMPTIONS", [])) + ". Real code: " + "; ".join(c["REAL"]) + ". Stubs: " + "; ".join(c["STUB"]) + "."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "Check under construction.")))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: all seams are taken by replacing the standard-library and torch entry points before pfrl is imported (sim/shims.py, sim/disk.py)."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
