"""Front end: turn /repo's current working tree into one linked LLVM module.

Nothing of mairix is executed.  The sources are copied to a scratch directory
(removed at exit), the project's own configure script decides the -D flags, its
own generator (dfasyn) writes the three scanner sources, and clang 18 lowers
every translation unit of the Makefile's OBJ list to bitcode.
"""
import atexit, glob, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MAIRIX_REPO", "/repo")


class AnalysisBroken(Exception):
    pass


_ENV = dict(PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/lib/llvm-18/bin",
            LC_ALL="C", TZ="UTC", CC="gcc", HOME="/nonexistent")


def _tool(*names):
    for n in names:
        p = shutil.which(n, path=_ENV["PATH"])
        if p:
            return p
    raise AnalysisBroken("tool not found: %s" % "/".join(names))


def _run(cmd, cwd, what):
    r = subprocess.run(cmd, cwd=cwd, env=_ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise AnalysisBroken("%s failed:\n%s" % (what, r.stdout.decode(errors="replace")[-2000:]))
    return r.stdout


class Built:
    pass


_cached = None


def prepare(extra_defs=()):
    """Copy, configure, generate, compile and link. Returns Built(bc=..., units=..., dir=...)."""
    global _cached
    if _cached is not None:
        return _cached
    d = tempfile.mkdtemp(prefix="mxsa.")
    atexit.register(shutil.rmtree, d, True)
    src = os.path.join(d, "src")
    os.makedirs(os.path.join(src, "dfasyn"))
    gen = {"datescan", "fromcheck", "nvpscan"}
    for f in os.listdir(REPO):
        p = os.path.join(REPO, f)
        if not os.path.isfile(p) or os.path.splitext(f)[0] in gen and f[-2:] in (".c", ".h"):
            continue
        if f.endswith((".c", ".h", ".nfa", ".in", ".txt")) or f in ("configure", "mkversion"):
            if f != "version.h":
                shutil.copy(p, src)
    for f in os.listdir(os.path.join(REPO, "dfasyn")):
        p = os.path.join(REPO, "dfasyn", f)
        if os.path.isfile(p) and (f.endswith((".c", ".h", ".y", ".l")) or f == "Makefile") \
                and f not in ("parse.c", "parse.h", "scan.c"):
            shutil.copy(p, os.path.join(src, "dfasyn"))
    _run(["sh", "./configure"], src, "configure")
    mk = open(os.path.join(src, "Makefile")).read()
    m = re.search(r"^CFLAGS=(.*)$", mk, re.M)
    if not m:
        raise AnalysisBroken("no CFLAGS in the generated Makefile")
    defs = [t for t in m.group(1).split() if t.startswith(("-D", "-I", "-U"))]
    # another build configuration (thorough tier): features switched off after configure has switched them on
    defs += ["-U" + x for x in os.environ.get("MAIRIX_WITHOUT", "").split()]
    m = re.search(r"^OBJ *=((?:.*\\\n)*.*)$", mk, re.M)
    if not m:
        raise AnalysisBroken("no OBJ list in the generated Makefile")
    units = sorted({o[:-2] + ".c" for o in m.group(1).replace("\\", " ").split() if o.endswith(".o")})
    _run(["make", "datescan.c", "fromcheck.c", "nvpscan.c", "version.h"], src, "generated sources")
    clang = _tool("clang-18", "clang")
    bcdir = os.path.join(d, "bc")
    os.makedirs(bcdir)

    def comp(u):
        # -O1 -disable-llvm-passes: clean, unoptimised IR without optnone.
        _run([clang, "-std=gnu17", "-c", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes", "-g",
              "-fno-builtin", "-w", "-U_FORTIFY_SOURCE", "-fno-strict-aliasing", *defs, *extra_defs,
              u, "-o", os.path.join(bcdir, u[:-2] + ".bc")], src, "clang " + u)
    linked = os.path.join(d, "all.bc")

    def compile_all():
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, units))
        _run([_tool("llvm-link-18", "llvm-link"), "-o", linked] +
             [os.path.join(bcdir, u[:-2] + ".bc") for u in units], src, "llvm-link")
    compile_all()
    import renames
    ren = renames.detect(linked, src)
    if ren:
        # a function or struct member that was only renamed: analyse it under its old name
        keep = defs
        defs = defs + ["-D%s=%s" % (n, o) for n, o in sorted(ren.items())]
        try:
            compile_all()
        except AnalysisBroken:
            defs, ren = keep, {}
            compile_all()
    b = Built()
    b.renames = ren
    b.bc, b.units, b.dir, b.src, b.defs = linked, units, d, src, defs
    _cached = b
    return b


def optimise(bc, out, passes):
    _run([_tool("opt-18", "opt"), "-passes=" + passes, "-o", out, bc], "/", "opt " + passes)


def disassemble(bc):
    return _run([_tool("llvm-dis-18", "llvm-dis"), "-o", "-", bc], "/", "llvm-dis").decode("latin1")


if __name__ == "__main__":
    import sys
    try:
        b = prepare()
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN", e)
        sys.exit(2)
    print("built", len(b.units), "translation units")
