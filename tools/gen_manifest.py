#!/usr/bin/env python3
"""
	Writes MANIFEST.json from properties.jsonl and lib/checks.py
"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
import checks

NOT_APPLICABLE = {}

manifest = {
	"version" : 1,
	"setup_cmd" : "python3 run.py setup",
	"checks" : [],
	"not_applicable" : [],
	"notes" : "See DESIGN.md. Every check is run.py <property>; replay a failure with run.py replay <property> <file>.",
}

with open(os.path.join(HERE, "properties.jsonl")) as f:
	for line in f:
		id = json.loads(line)["id"]
		check = checks.CHECKS.get(id)
		if check:
			manifest["checks"].append({
				"property" : id,
				"quick_cmd" : "python3 run.py %s" % id,
				"thorough_cmd" : "VERIF_TIER=thorough python3 run.py %s" % id,
				"evidence_file" : "evidence/%s.json" % id,
				"technique" : check.technique,
				"level" : check.level,
				"level_note" : check.note,
			})
		else:
			manifest["not_applicable"].append({
				"property" : id,
				"reason" : NOT_APPLICABLE.get(id, "No check has been built yet."),
			})

with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
	json.dump(manifest, f, indent=1)
	f.write("\n")
