#!/usr/bin/env python3
"""Self-test of the checkers: each case edits a scratch copy of /repo and states what the
check must say.  V = violation expected, Q = quiet expected (behaviour-preserving edit).

usage: tools/selftest.py [PROPERTY ...]      (cases in tools/cases/*.py)
A case: (property, 'V'|'Q', file, old text, new text [, file, old, new ...])
"""
import concurrent.futures as cf, glob, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "tools", "cases", "*.py"))):
        ns = {}
        exec(open(f).read(), ns)
        out += [(os.path.basename(f), k, c) for k, c in enumerate(ns["CASES"])]
    return out


def one(x):
    fn, k, c = x
    pid, exp, ed = c[0], c[1], c[2:]
    d = tempfile.mkdtemp(prefix="st_")
    try:
        rp = os.path.join(d, "repo")
        shutil.copytree("/repo", rp, ignore=shutil.ignore_patterns(".git", "*.o", "test"))
        for j in range(0, len(ed), 3):
            f = os.path.join(rp, ed[j])
            s = open(f, encoding="latin1").read()
            if s.count(ed[j + 1]) < 1:
                return x, "NOAPPLY", ed[j + 1][:60]
            s = s.replace(ed[j + 1], ed[j + 2], 1)
            open(f, "w", encoding="latin1").write(s)
        vf = os.path.join(d, "verif")
        os.mkdir(vf)
        for n in ("check.py", "engine", "checks", "known-findings.txt"):
            os.symlink(os.path.join(HERE, n), os.path.join(vf, n))
        out = subprocess.run([sys.executable, os.path.join(vf, "check.py"), pid], capture_output=True, text=True, env=dict(os.environ, MAIRIX_REPO=rp, VERIF_OUT=d))
        res = {0: "Q", 1: "V" if "VIOLATION property=" in out.stdout else "BROKEN"}.get(out.returncode, "BROKEN")
        return x, res, out.stdout[-1500:] + out.stderr[-600:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    want = sys.argv[1:]
    cs = [x for x in load() if not want or x[2][0] in want or x[0] in want or "%s#%d" % (x[0][:-3], x[1]) in want]
    bad = 0
    with cf.ThreadPoolExecutor(7) as ex:
        for x, res, txt in ex.map(one, cs):
            c = x[2]
            if res == c[1]:
                ln = [l for l in txt.splitlines() if l.startswith("  [")]
                print("ok   %s %s#%d %s" % (c[0], x[0], x[1], (ln[0][:150] if ln else "")))
            else:
                bad += 1
                print("FAIL %s %s#%d expected %s got %s\n   %s\n   -> %s" % (c[0], x[0], x[1], c[1], res, c[3][:100].replace("\n", "\\n"), txt[-1200:]))
    print("%d cases, %d failures" % (len(cs), bad))
    sys.exit(bool(bad))


if __name__ == "__main__":
    main()

