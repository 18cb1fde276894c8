"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
T = {
    "C01": "model-based random testing of encrypted trees and request histories, byte comparison",
    "C02": "fault injection fuzzing of encrypted files (all bit flips and truncations of small ones), model oracle",
    "C03": "model-based random histories over a set of client certificates",
    "C04": "stateful model-based random testing of the LVE over TLS",
    "C05": "grammar-based fuzzing against an independent recogniser, both directions",
    "C06": "mutation and structured fuzzing of the LVE under AddressSanitizer",
    "C07": "fuzzing of a played LVE against the tool library under AddressSanitizer",
    "C08": "model-based random testing of the tool API against a played LVE",
    "C09": "generated path strings against a canary file tree",
    "C10": "stateful random testing against a scripted licence manager, three builds",
    "C11": "generated key files, compiled and run, byte comparison",
    "C12": "generated library trees, archive compared with the tree, read faults",
    "C13": "generated arguments, manifest parsed by an XML parser and compared",
    "C14": "generated argument vectors against a reference acceptor",
    "C15": "differential testing against an independent implementation of the file format, statistics on randomness",
    "C16": "random sessions with recorded raw traffic, search for marked contents",
    "C17": "stateful model-based random testing of the error API",
    "C18": "round trips and fault injection (write limit at every byte)",
    "C19": "stateful random testing of interleaved connections with resource accounting",
    "C20": "generated argument vectors against a reference acceptor",
    "C21": "generated version triples and retry histories against a model",
    "C22": "repeated random rounds of operations, allocated memory and descriptors measured after each",
}
LEVEL = {"C02": "fault_enumeration", "C18": "fault_enumeration"}
NOTE = ("Generated cases are run against the real programs built from /repo with AddressSanitizer; "
        "the oracle is independent of the code. Holds for the cases explored, not for all inputs.")


def main():
    props = [json.loads(x) for x in open(V + "/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
            import importlib
            m = importlib.import_module("checks." + i.lower())
            checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                               evidence_file="evidence/%s.json" % i, technique="property-based testing: " + T[i], level=m.PROP.level,
                               level_note=NOTE))
        else:
            na.append(dict(property=i, reason="check not built yet"))
    json.dump(dict(version=1, setup_cmd="python3 -m semla.build asan rel asan-glob-ok asan-glob-no asan-lm asan-lm-glob", checks=checks, not_applicable=na),
              open(V + "/MANIFEST.json", "w"), indent=1)


main()
