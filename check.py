#!/usr/bin/env python3
"""usage: check.py PROPERTY   -- decide one property of /repo by static analysis.

exit 0: held (KNOWN-FINDING lines for listed findings); exit 1 + VIOLATION line;
exit 2: the analysis itself could not be carried out (anchor vanished, build failed).
"""
import importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
sys.setrecursionlimit(20000)


class Result:
    """Collects obligations (rule instances) and violations."""

    def __init__(self):
        self.obl, self.viol, self.rules, self.notes, self.assume = [], [], [], [], []
        self.scope = {}
        self._seen = set()

    def rule(self, text):
        self.rules.append(text)

    def ok(self, what):
        if what not in self._seen:
            self._seen.add(what)
            self.obl.append(what)

    def bad(self, key, msg):
        """key: stable identification of the violating construct; msg: diagnosis."""
        if not any(k == key for k, _ in self.viol):
            self.viol.append((key, msg))
            self.obl.append("VIOLATED " + msg)

    def require(self, cond, key, what, msg=None):
        if cond:
            self.ok(what)
        else:
            self.bad(key, msg or what)
        return cond


def known_findings():
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: "):
                d = dict(x.split("=", 1) for x in ln[7:].split(" ", 2)[:2])
                out.append((d["property"], d["key"], ln.split(" ", 3)[3] if ln.count(" ") >= 3 else ""))
    return out


CONFIGS = ["USE_OPENSSL USE_GZIP_MBOX USE_BZIP_MBOX USE_XZ_MBOX", "USE_OPENSSL", "USE_GZIP_MBOX USE_BZIP_MBOX", "USE_XZ_MBOX"]


def start_configs(pid):
    """thorough tier: the same analysis of the program as built without optional features"""
    import subprocess, tempfile
    out = []
    for c in CONFIGS:
        d = tempfile.mkdtemp(prefix="mxcf.")
        env = dict(os.environ, MAIRIX_WITHOUT=c, VERIF_TIER="quick", VERIF_OUT=d)
        out.append((c, d, subprocess.Popen([sys.executable, os.path.abspath(__file__), pid], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    return out


def collect_configs(r, pid, others):
    import re, shutil
    seen = {k for k, m in r.viol}
    done = []
    for c, d, q in others:
        out = q.communicate()[0].decode(errors="replace")
        if q.returncode == 2:
            r.notes.append("without %s: not decided: %s" % (c, out.strip().splitlines()[-1][:300] if out.strip() else ""))
        else:
            rep = os.path.join(d, "evidence", pid + ".report.txt")
            txt = open(rep).read().splitlines() if os.path.exists(rep) else []
            for l in txt:
                m = re.match(r"violation \[(.*?)\]: (.*)", l)
                if m and m.group(1) not in seen:
                    seen.add(m.group(1))
                    r.viol.append((m.group(1), "built without %s: %s" % (c, m.group(2))))
            done.append({"without": c, "rule_instances": sum(l.startswith("instance: ") for l in txt)})
        shutil.rmtree(d, True)
    if others:
        r.scope = dict(r.scope or {}, other_configurations=done)


def main():
    pid = sys.argv[1]
    t0 = time.time()
    from build import AnalysisBroken
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(pid.lower())
    r = Result()
    try:
        others = start_configs(pid) if tier == "thorough" and not os.environ.get("MAIRIX_WITHOUT") else []
        mod.run(r, tier)
        collect_configs(r, pid, others)
        floor = getattr(mod, "FLOOR", 1)
        if len(r.obl) < floor and not r.viol:
            raise AnalysisBroken("only %d rule instances matched, at least %d were confirmed by hand" % (len(r.obl), floor))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % pid)
        sys.exit(2)
    known = [(k, d) for p, k, d in known_findings() if p == pid]
    new = []
    for key, msg in r.viol:
        kf = [d for k, d in known if k == key]
        if kf:
            print("KNOWN-FINDING: property=%s %s [%s]" % (pid, msg, key))
        else:
            new.append((key, msg))
    OUT = os.environ.get("VERIF_OUT") or HERE      # elsewhere for runs that are not the check itself (configurations, self-tests)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    replay = os.path.join("evidence", "%s.report.txt" % pid)
    with open(os.path.join(OUT, replay), "w") as f:
        f.write("property %s\n" % pid)
        for x in r.rules:
            f.write("rule: %s\n" % x)
        for k, m in r.viol:
            f.write("violation [%s]: %s\n" % (k, m))
        for o in r.obl:
            f.write("instance: %s\n" % o)
    viol = len(new)
    samples = r.obl[:6]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"),
          "coverage": {"explanation": "static analysis of the LLVM IR of every translation unit in the build; rules: " +
                       " || ".join(r.rules),
                       "rule_instances": len(r.obl), "violated": len(r.viol), "scope": r.scope, "samples": samples,
                       "notes": r.notes},
          "assumptions": r.assume or ["clang 18 lowers the same program gcc builds", "no asm, no setjmp, no threads"],
          "wall_s": round(time.time() - t0, 2), "violations": viol}
    with open(os.path.join(OUT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d rule instances analysed, %d violated (%d known) in %.1fs; scope %s" %
          (pid, len(r.obl), len(r.viol), len(r.viol) - viol, time.time() - t0, r.scope))
    if new:
        for key, msg in new:
            print("  [%s] %s" % (key, msg))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
