#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import parts
from vlib import ROOT
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^hooks"], stdout=subprocess.PIPE, text=True).stdout.split()
m = {"version": 1, "setup_cmd": "python3 bin/setup.py",
     "hooks": {"guard": "build tag verif", "enable": "go test -tags verif", "source_commits": hooks},
     "checks": [{"property": p, "quick_cmd": "python3 bin/check.py %s quick" % p, "thorough_cmd": "python3 bin/check.py %s thorough" % p,
                 "technique": parts.TECHNIQUE[p], "level": parts.LEVELS[p], "level_note": parts.NOTE[p]} for p in sorted(parts.PARTS)],
     "not_applicable": [{"property": p, "reason": "no check yet"} for p in ["C%02d" % i for i in range(1, 21)] if p not in parts.PARTS]}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
