"""Writes MANIFEST.json from properties.jsonl and the checks which exist in vh/checks"""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (ROOT / "properties.jsonl").read_text().splitlines() if x.strip()]
checks, missing = [], []
for p in props:
    f = ROOT / "vh" / "checks" / f"{p['id'].lower()}.py"
    if not f.exists():
        missing.append({"property": p["id"], "reason": "no monitor has been built for it yet"})
        continue
    doc = f.read_text().split('"""')[1].strip().replace("\n", " ")
    checks.append(
        {
            "property": p["id"],
            "quick_cmd": f"./run.sh {p['id']} quick",
            "thorough_cmd": f"./run.sh {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": "runtime monitoring: " + doc.split(": ", 1)[1].rstrip("."),
            "level": "exploration",
            "level_note": "executions of the real code under generated workloads, judged online by an independent "
            "oracle; the evidence file counts what the monitors observed. Nothing outside the explored executions is claimed.",
        }
    )
(ROOT / "MANIFEST.json").write_text(
    json.dumps({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing}, indent=1) + "\n"
)
print(len(checks), "checks;", len(missing), "missing")
