"""Appends the fixed entries to known_findings.jsonl (run once by hand after a fix: commit)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {"8b3a123": "C01", "4831e6e": "C18", "45db6cf": "C18", "1f7b297": "C12", "0ca1d0c": "C10", "8c57a87": "C05", "7b6361a": "C01", "d220deb": "C01", "399afeb": "C02", "6dac116": "C18", "37aa3cd": "C06", "2bb9a71": "C07", "34adcba": "C07", "f121f82": "C04",
         "88a869e": "C03", "3e20dc1": "C09", "9adc594": "C11", "8e8782a": "C11", "19f8e22": "C18", "152868d": "C20", "5963a6a": "C20", "08f191b": "C07",
         "136ebbe": "C07", "8e5a117": "C06", "c34571e": "C13", "d5a2b36": "C13", "e937d3e": "C13", "210f31b": "C14", "fe3068b": "C12", "ad0d296": "C12",
         "1229f8b": "C18", "b22ffcb": "C06", "b92fd26": "C20", "336952f": "C11", "9479b33": "C11", "c28ab00": "C15", "1d8d1cb": "C18", "c12859c": "C20",
         "927ce0c": "C19", "6b141ed": "C22", "051e3d5": "C22", "9c1ab4c": "C22", "928b632": "C15", "8d93f5b": "C12", "bc6da04": "C12", "3ae5150": "C12", "d52c056": "C12", "5c9156e": "C22", "6d6c12c": "C01", "5306337": "C02", "230e04c": "C19", "f53e246": "C12", "1ea026e": "C07", "7554f79": "C19", "c9e96ea": "C19", "5dc5644": "C09", "9ecea70": "C19", "2e5a371": "C04", "168ec05": "C01", "be61163": "C19", "ead7207": "C19", "7ac75ae": "C18",
         "cc9e7aa": "C14", "3880a9d": "C13", "ada7468": "C14", "dfc3e17": "C13", "8385d3a": "C05", "ccefa9e": "C12", "37c9076": "C12", "b0ffd5d": "C19"}
old = [json.loads(x) for x in open(V + "/known_findings.jsonl")]
out = [e for e in old if e["status"] == "open"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "a9267ce.."], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(" ", 1)
    what = s.replace("fix: ", "")
    out.append(dict(status="fixed", property=PROPS[h], commit=h, what=what, line="fixed: property=%s %s %s" % (PROPS[h], h, what)))
open(V + "/known_findings.jsonl", "w").write("".join(json.dumps(e) + "\n" for e in out))
