"""Writes /verif/MANIFEST.json from the claimed properties (python3 driver/mkmanifest.py)."""
import json, os
from props import PROPS
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Every execution of the real crate within the stated bounds is run and compared with an independent reference; "
         "nothing is sampled. Trusts the reference model, the explorer, rustc and the host (x86-64, little endian).")
m = dict(version=1, setup_cmd="./check setup", checks=[], not_applicable=[],
         notes="No hooks: every check drives the public interface of the crate built from /repo's working tree. "
               "./check ID [quick|thorough]; ./check replay FILE re-executes a reported violation.")
for p, c in PROPS.items():
    if c.get("skip"):
        continue
    m["checks"].append(dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough",
                            technique=c.get("technique", "stateless model checking of the real code (exhaustive choice enumeration against a reference model)"),
                            level="model_checking", level_note=c.get("note", TRUST)))
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
