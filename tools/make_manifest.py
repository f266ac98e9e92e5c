"""
Writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py
(run by hand after an edit; both outputs are committed).
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props  # noqa: E402

VERIF = os.path.dirname(HERE)


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in props.PROPS:
            d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
            assert len(d["title"]) <= 80, d["id"]
            assert d["statement"].count(". ") <= 3, d["id"]
            f.write(json.dumps(d) + "\n")
    checks = []
    for p in props.PROPS:
        pid = p["id"]
        if not os.path.exists(os.path.join(VERIF, "rv", "checks", pid.lower() + ".py")):
            print("no check yet:", pid)
            continue
        checks.append(dict(
            property=pid, quick_cmd="./check " + pid, thorough_cmd="./check %s --thorough" % pid,
            technique=p["technique"], level="exploration", level_note=p["level_note"]))
    man = dict(
        version=1,
        setup_cmd="chmod +x check && /opt/venv/bin/python -c 'import numpy, scipy, sys; assert sys.version_info >= (3, 12)'",
        checks=checks, not_applicable=props.NOT_APPLICABLE,
        notes="Runtime monitors (recorded traces + independent oracles) around the real padasip code; "
              "no hooks in /repo are needed, everything is observed at the public API. See DESIGN.md.")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
