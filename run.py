#!/usr/bin/env python3
"""
	run.py PROPERTY            decides the property on the code in /repo
	run.py replay PROPERTY FILE    runs a recorded failure again

	Exit 0: held on everything explored. Exit 1 and "VIOLATION property=<id> replay=<path>": broken.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))

import build
import checks

def write_evidence(prop, tier, seed, level, coverage, wall, violations, assumptions):
	os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
	path = os.path.join(HERE, "evidence", "%s.json" % prop)
	with open(path + ".tmp", "w") as f:
		json.dump(dict(property=prop, tier=tier, seed=seed, level=level, coverage=coverage,
			wall_s=round(wall, 3), violations=violations, assumptions=assumptions), f, indent=1)
	os.rename(path + ".tmp", path)

def known_findings(prop):
	path = os.path.join(HERE, "known-findings.txt")
	if os.path.exists(path):
		with open(path) as f:
			for line in f:
				if line.startswith("KNOWN-FINDING: property=%s " % prop):
					yield line.rstrip("\n")

def main():
	if len(sys.argv) == 4 and sys.argv[1] == "replay":
		return checks.replay(sys.argv[2], sys.argv[3])
	if sys.argv[1:] == ["setup"]:
		return checks.setup()
	prop = sys.argv[1]
	tier = os.environ.get("VERIF_TIER") or "quick"
	seed = int(os.environ.get("VERIF_SEED") or 1)
	check = checks.CHECKS[prop]

	os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
	start = time.time()
	try:
		result = check.run(prop, tier, seed)
	except build.BuildError as e:
		print("The build failed:\n%s" % e)
		return 2

	coverage = result["coverage"]
	write_evidence(prop, tier, seed, check.level, coverage, time.time() - start,
		1 if result["violation"] else 0, check.assumptions)

	for line in known_findings(prop):
		print(line)

	print("%s: %d cases, %d distinct non-trivial, %.1fs" % (prop, coverage["evaluations"],
		coverage["distinct_nontrivial"], time.time() - start))
	if result["violation"]:
		print(result["message"])
		print("VIOLATION property=%s replay=%s" % (prop, result["replay"]))
		return 1
	return 0

if __name__ == "__main__":
	sys.exit(main())
