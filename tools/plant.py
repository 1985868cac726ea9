#!/usr/bin/env python3
"""plant.py SPEC.py...: makes ../seeded/<id>/ from a spec and confirms it in a scratch copy.

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (Go source of a
test TestDemo in package merge), and optionally RACE = True, PKG = "."."""
import json, os, subprocess, sys, tempfile, shutil
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOSUMDB="off")
DEMO = """#!/bin/bash
# Exit 0: the property held in this demonstration.
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off GOSUMDB=off
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%szz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
timeout 200 go test -count=1 -timeout 120s %s-overlay "$tmp/overlay.json" -run '^TestDemo$' %s
"""
def sh(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr
def plant(spec):
    g = {"RACE": False, "PKG": "."}
    g["spec"] = spec
    exec(open(spec).read(), g)
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", g["ID"])
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        wt = tmp + "/repo"
        sh(["git", "clone", "-q", "/repo", wt], "/")
        for f, old, new in g["EDITS"]:
            p = wt + "/" + f
            s = open(p).read() if os.path.exists(p) else ""
            if old is None:
                s = new
            else:
                assert s.count(old) == 1, (g["ID"], f, s.count(old), old)
                s = s.replace(old, new)
            open(p, "w").write(s)
        rc, o = sh(["gofmt", "-w"] + sorted({f for f, _, _ in g["EDITS"]}), wt)
        assert rc == 0, o
        sh(["git", "add", "-AN"], wt)
        _, diff = sh(["git", "diff"], wt)
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo_test.go", "w").write(g["DEMO"].lstrip())
        sh(["gofmt", "-w", out + "/demo_test.go"], out)
        pkg = "" if g["PKG"] == "." else g["PKG"].lstrip("./") + "/"
        open(out + "/demo.sh", "w").write(DEMO % (pkg, "-race " if g["RACE"] else "", g["PKG"]))
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
        # confirm
        res = []
        rc, o = sh(["go", "vet", "./..."], wt); res.append(("vet", rc == 0, o))
        rc, o = sh(["go", "test", "-count=1", "./..."], wt); res.append(("tests pass", rc == 0, o[-1500:]))
        rc, o = sh([out + "/demo.sh"], wt); res.append(("demo fails with", rc != 0 and "build failed" not in o, o[-1500:])); shown = o
        sh(["git", "stash", "-q"], wt); sh(["git", "checkout", "-q", "."], wt)
        rc, o = sh([out + "/demo.sh"], wt); res.append(("demo passes without", rc == 0, o[-1500:]))
        bad = [(n, o) for n, ok, o in res if not ok]
        print(g["ID"], "OK" if not bad else "BAD")
        for n, o in bad: print("   ", n, o)
        if "-v" in sys.argv: print(shown[-800:])
        return not bad
    finally:
        shutil.rmtree(tmp)
if __name__ == "__main__":
    for s in sys.argv[1:]:
        if s != "-v": plant(s)
