#!/usr/bin/env python3
import json, sys
def f(d):
    for k, v in d.items():
        if k == "notes":
            print("\n".join(v[:30]) or "no notes")
        elif isinstance(v, dict):
            f(v)
f(json.load(open("/verif/evidence/%s.json" % sys.argv[1])))
