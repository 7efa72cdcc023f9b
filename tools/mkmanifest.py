"""Write MANIFEST.json for the checks registered in harness/checks.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness.checks import CHECKS, NOTES, NOT_YET
props = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "bash bin/setup",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"bin/check {p}",
            "thorough_cmd": f"bin/check {p} --tier thorough",
            "technique": "Quint specification; simulated behaviours replayed on the code",
            "level": "model_checking",
            "level_note": NOTES.get(p, "") + " The specification's own invariants are evaluated in every simulated state; the code is judged on the replayed behaviours (a random sample by VERIF_SEED, not all). Trusted: the specification, the Quint simulator, floating point within the stated tolerance.",
        }
        for p in props
        if p in CHECKS
    ],
    "not_applicable": [{"property": p, "reason": NOT_YET.get(p, "check under construction")} for p in props if p not in CHECKS],
}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
