"""record the /repo fix commits after REV under PROP: fixed.py PROP REV"""
import json, subprocess, sys
p = "/verif/known_findings.json"
k = json.load(open(p))
for l in subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", sys.argv[2] + ".." + (sys.argv + ["HEAD"])[3]], capture_output=True, text=True).stdout.splitlines():
    h, m = l.split(" ", 1)
    k["fixed"].append("fixed: property=%s %s %s" % (sys.argv[1], h, m))
json.dump(k, open(p, "w"), indent=1)
open(p, "a").write("\n")
