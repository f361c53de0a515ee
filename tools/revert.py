#!/usr/bin/env python3
"""For every 'fixed:' line of known-findings.txt: undo the fix in a scratch copy and see that the check reports it.
usage: tools/revert.py [COMMIT ...]"""
import os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
bad = 0
for l in open(os.path.join(HERE, "known-findings.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
    if not m or len(sys.argv) > 1 and m.group(2) not in sys.argv[1:] and m.group(1) not in sys.argv[1:]:
        continue
    d = tempfile.mkdtemp(prefix="rv_")
    try:
        if subprocess.run("cp -a /repo %s/repo && cd %s/repo && git show %s | patch -p1 -R -s --dry-run && git show %s | patch -p1 -R -s" % (d, d, m.group(2), m.group(2)), shell=True, stdout=subprocess.DEVNULL).returncode:
            print("----", m.group(1), m.group(2), "cannot be undone on its own (later changes touch the same lines)")
            continue
        vf = os.path.join(d, "verif")
        os.mkdir(vf)
        for n in ("check.py", "engine", "checks", "known-findings.txt"):
            os.symlink(os.path.join(HERE, n), os.path.join(vf, n))
        if not os.path.exists(os.path.join(HERE, "checks", m.group(1).lower() + ".py")):
            print("----", m.group(1), m.group(2), "no check yet")
            continue
        o = subprocess.run([sys.executable, os.path.join(vf, "check.py"), m.group(1)], capture_output=True, text=True, env=dict(os.environ, MAIRIX_REPO=d + "/repo", VERIF_OUT=d))
        ok = o.returncode == 1
        bad += not ok
        print("ok  " if ok else "MISS", m.group(1), m.group(2), [x for x in o.stdout.splitlines() if x.startswith("  [")][:1] if ok else o.stdout[-300:] + o.stderr[-300:])
    finally:
        shutil.rmtree(d, ignore_errors=True)
sys.exit(bad > 0)
