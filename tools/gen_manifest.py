"""Writes MANIFEST.json from props.py and properties.jsonl"""
import json
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF))
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE

ids = [json.loads(x)["id"] for x in (VERIF / "properties.jsonl").read_text().splitlines()]
checks = [
    dict(
        property=i,
        quick_cmd=f"python3 check.py {i} quick",
        thorough_cmd=f"python3 check.py {i} thorough",
        technique="TLA+ model checking (TLC) with replay of model behaviours and trace validation of the real code",
        level="model_checking",
        level_note=PROPS[i].get("note", "")
        or "Bounded: the design is checked exhaustively within the configured constants; the binding to the code "
        "covers the model's behaviours and the generated inputs that were replayed. Trusts TLC, the harness' projection "
        "of observed values (integers, tokens) and CPython/PyPY's numerics.",
    )
    for i in ids
    if i in PROPS
]
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
         notes="TLA+ specifications in spec/, checked with TLC; drivers in harness/ run the code in /repo under "
               "/opt/venv/bin/python. No hooks in /repo are needed.")  # fmt: skip
(VERIF / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks,", len(na), "not applicable")
