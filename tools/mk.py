#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech,
                  note=note, na=na, observe=observe or [], state=state or []))


def three(t):
    """the statement in at most three sentences"""
    import re
    x = re.split(r"\.\s+(?=[A-Z])", t.rstrip("."))
    while len(x) > 3:
        k = min(range(len(x) - 1), key=lambda i: len(x[i]) + len(x[i + 1]))
        b = x[k + 1]
        if not re.match(r"[A-Z]{2}|MH|IMAP|Maildir|Message", b):
            b = b[0].lower() + b[1:]
        x[k:k + 2] = [x[k] + "; " + b]
    return ". ".join(x) + "."


exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": three(p["statement"]),
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
m = {"version": 1, "setup_cmd": "python3 engine/build.py", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                            "technique": p["tech"], "level": "other", "level_note": p["note"]})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not applicable")
