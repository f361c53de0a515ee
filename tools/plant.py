#!/usr/bin/env python3
"""plant.py SPEC.py...   create/refresh seeded/<id> from a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO)
plant.py --verify ID...  in /repo: demo on the unchanged tree, then patch, build, tests, demo, check; always undone."""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLANT_REPO", "/repo")     # a copy of /repo may be used for --verify
VP = os.environ.get("PLANT_VP", "/opt/vp")       # and build.sh/test.sh changed to work on it
LIB = open(os.path.join(HERE, "tools", "demolib.sh")).read()


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        d = tempfile.mkdtemp(prefix="plant")
        try:
            sh("git -C %s archive HEAD | tar x -C %s" % (REPO, d))
            sh("cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm b" % d)
            for fn, old, new in b["edits"]:
                p = os.path.join(d, fn)
                s = open(p, encoding="latin-1").read()
                assert s.count(old) == 1, (b["id"], fn, s.count(old), old)
                open(p, "w", encoding="latin-1").write(s.replace(old, new))
            diff = sh("git -C %s diff" % d).stdout
        finally:
            shutil.rmtree(d)
        o = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(o, exist_ok=True)
        open(o + "/patch.diff", "w").write(diff)
        open(o + "/demo.sh", "w").write("#!/bin/bash\n# " + b["breaks"].replace("\n", " ") + "\n" + LIB + b["demo"].strip() + "\n")
        os.chmod(o + "/demo.sh", 0o755)
        for f in b.get("files", []):
            shutil.copy(os.path.join(HERE, "tools", f), o)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        print("made", b["id"])


def verify(i):
    o = os.path.join(HERE, "seeded", i)
    prop = json.load(open(o + "/meta.json"))["property"]
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))
    res = []
    assert sh("git -C %s status --porcelain" % REPO).stdout == ""
    demo = tempfile.mkdtemp(prefix="demo")
    for f in os.listdir(o):
        if not f.endswith((".diff", ".json")):
            shutil.copy(os.path.join(o, f), demo)
    try:
        assert sh("bash %s/build.sh" % VP).returncode == 0
        r = sh("bash %s/demo.sh" % demo, cwd=REPO)
        res.append("clean demo %d" % r.returncode)
        if r.returncode:
            print(r.stdout[-600:], r.stderr[-600:])
        a = sh("git -C %s apply %s/patch.diff" % (REPO, o))
        assert a.returncode == 0, a.stderr
        b = sh("bash %s/build.sh" % VP)
        res.append("build %d" % b.returncode)
        t = sh("bash %s/test.sh /tmp/plant.json" % VP)
        j = json.load(open("/tmp/plant.json"))
        res.append("tests passed %d missing %s" % (len(j["passed"]), sorted(base - set(j["passed"]))[:3]))
        r = sh("bash %s/demo.sh" % demo, cwd=REPO)
        res.append("bug demo %d" % r.returncode)
        c = sh("MAIRIX_REPO=%s VERIF_OUT=%s python3 check.py %s" % (REPO, demo, prop), cwd=HERE)
        res.append("check %d %s" % (c.returncode, [l for l in c.stdout.splitlines() if "VIOLATION" in l][:1]))
    finally:
        sh("git -C %s checkout -- ." % REPO)
        sh("bash %s/build.sh" % VP)
        shutil.rmtree(demo)
    print(i, "|", " | ".join(res), flush=True)


if sys.argv[1] == "--verify":
    for i in sys.argv[2:]:
        verify(i)
else:
    for s in sys.argv[1:]:
        make(s)
