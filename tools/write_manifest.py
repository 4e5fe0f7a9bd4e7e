"""Writes MANIFEST.json from the check modules present. Run by hand when a check is added."""
import ast
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
NOT_APPLICABLE = {
    "P01": "Equality with a closed formula is a pure function of parameters and latent score: no schedule, time, I/O, randomness or fault for the property to depend on. Simulation would only be input generation in disguise.",
    "P03": "Equality of two deterministic numerical functions: no schedule, time, I/O or fault involved.",
    "P04": "Deterministic numerical mathematics (quadrature, quantiles, splines, bit scores): no schedule, time, I/O or fault involved.",
}


def main():
    props = [json.loads(line) for line in (ROOT / "properties.jsonl").read_text().splitlines()]
    checks, missing = [], []
    for p in props:
        i = p["id"]
        f = ROOT / "sim" / "checks" / f"{i.lower()}.py"
        if f.exists():
            c = {}
            for node in ast.parse(f.read_text()).body:
                if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
                    try:
                        c[node.targets[0].id] = ast.literal_eval(node.value)
                    except ValueError:
                        pass
            checks.append({
                "property": i,
                "quick_cmd": f"{PY} -m sim check {i} --tier quick",
                "thorough_cmd": f"{PY} -m sim check {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "deterministic simulation with fault injection: " + c["TECHNIQUE"],
                "level": c["LEVEL"],
                "level_note": c["LEVEL_NOTE"],
            })
        else:
            missing.append({"property": i, "reason": NOT_APPLICABLE.get(i, "Not built yet.")})
    (ROOT / "MANIFEST.json").write_text(json.dumps({
        "version": 1,
        "setup_cmd": f"{PY} -m sim selftest",
        "checks": checks,
        "not_applicable": missing,
        "notes": "No hooks in /repo: every seam is an entry point of the Python standard library or of torch, replaced inside the simulating process only "
                 "(sim/seams.py, sim/pool.py). Replay: python -m sim replay out/<file>.json. Known and fixed findings: KNOWN_FINDINGS.json.",
    }, indent=1) + "\n")


main()
