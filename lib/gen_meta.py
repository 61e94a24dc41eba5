#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and props.py."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from meta import META
from props import PROPS
with open(V + "/properties.jsonl", "w") as f:
    for pid, m in sorted(META.items()):
        assert len(m["title"]) <= 80, (pid, len(m["title"]))
        f.write(json.dumps({"id": pid, "title": m["title"], "statement": m["statement"],
                            "quantifier": {"over": m["over"], "text": m["text"]}, "why_tests_cant": m["why"],
                            "anchors": {"files": m["files"], "mechanism": m["mechanism"], "observe_at": m["observe"],
                                        "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "python3 lib/setup.py",
       "checks": [{"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": META[p]["technique"], "level": "exploration",
                   "level_note": META[p]["note"]} for p in sorted(PROPS)],
       "not_applicable": [{"property": p, "reason": m.get("na", "no check has been built for it yet")} for p, m in sorted(META.items()) if p not in PROPS],
       "notes": "See DESIGN.md. Every check builds what it needs from /repo's working tree below /verif/build and leaves /repo untouched; "
                "VERIF_SEED selects the random seed. Thorough runs are bounded by the case counts in the harnesses and by VERIF_THOROUGH_MAXSEC seconds per law (default 3000)."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
