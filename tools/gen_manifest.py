#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import props
ids = [json.loads(l)["id"] for l in open(os.path.join(props.VERIF, "properties.jsonl"))]
NA = {}
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough", evidence_file=f"evidence/{i}.json",
                    technique=props.META[i]["technique"], level=props.META[i]["level"], level_note=props.META[i]["note"]) for i in ids if i in props.META],
    "not_applicable": [dict(property=i, reason=NA.get(i, "no check yet")) for i in ids if i not in props.META],
    "notes": "See DESIGN.md. The library needs no hooks: checks build /repo's working tree with sanitizers, or with its allocator and I/O calls wrapped by the linker, and observe it through its public interface.",
}
json.dump(m, open(os.path.join(props.VERIF, "MANIFEST.json"), "w"), indent=1)
