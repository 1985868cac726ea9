#!/usr/bin/env python3
"""refactor.py [SPEC.py...]: every check must stay quiet on these changes that keep the behaviour.

A spec defines EDITS as for plant.py. CHECKS="C01 C02" limits the checks, SECS (default 12) the search."""
import glob, os, subprocess, sys, tempfile, shutil
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOSUMDB="off")
here = os.path.dirname(os.path.abspath(__file__))
def sh(cmd, cwd, **kw):
    p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **kw), capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr
for spec in sys.argv[1:] or sorted(glob.glob(here + "/refactors/*.py")):
    name = os.path.basename(spec)[:-3]
    g = {}
    exec(open(spec).read(), g)
    tmp = tempfile.mkdtemp(prefix="refactor")
    try:
        wt = tmp + "/repo"
        sh(["git", "clone", "-q", "/repo", wt], "/")
        for f, old, new in g["EDITS"]:
            p = wt + "/" + f
            s = open(p).read() if os.path.exists(p) else ""
            if old is None: s = new
            else:
                assert s.count(old) >= 1, (name, f, old)
                s = s.replace(old, new)
            open(p, "w").write(s)
        rc, o = sh(["gofmt", "-w"] + sorted({f for f, _, _ in g["EDITS"]}), wt)
        if rc: print(name, "gofmt", o); continue
        rc, o = sh(["go", "vet", "./..."], wt)
        if rc: print(name, "vet", o); continue
        rc, o = sh(["go", "test", "-count=1", "./..."], wt)
        if rc: print(name, "tests", o[-1500:]); continue
        for c in os.environ.get("CHECKS", " ".join("C%02d" % i for i in range(1, 17))).split():
            if c in g.get("SKIP", []): continue
            rc, o = sh([os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "check.sh"), c, "-seconds", os.environ.get("SECS", "12")], "/", VERIF_REPO=wt)
            if rc or "WARNING" in o:
                open("/tmp/ref.%s.%s" % (name, c), "w").write(o)
                print(name, c, "rc=%d" % rc, o[:200].replace("\n", " | "), flush=True)
        print(name, "done", flush=True)
    finally:
        shutil.rmtree(tmp)
