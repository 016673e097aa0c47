"""Prints a replay file without its data tables."""
import json
import sys

d = json.load(open(sys.argv[1]))


def cut(x):
    if isinstance(x, dict):
        return {k: cut(v) for k, v in x.items() if k not in ("columns", "rows")}
    if isinstance(x, list):
        return [cut(v) for v in x]
    return x


for k, v in d["program"].items():
    if isinstance(v, list):
        print(k + ":")
        for i in v:
            print("   ", json.dumps(cut(i)))
    else:
        print(k, json.dumps(cut(v)))
print(d["violations"])
