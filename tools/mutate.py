#!/usr/bin/env python3
"""mutate.py FILE[:FROM-TO]...: small mechanical changes to the code under test, and what notices them.

For each change that builds and passes the tests, the checks in CHECKS run for SECS each until one
raises an alarm. A change nobody notices changes nothing a property speaks of, or shows a gap."""
import os, re, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", GOSUMDB="off")
SWAPS = [(">=", ">"), ("<=", "<"), (" > ", " >= "), (" < ", " <= "), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"),
         ("true", "false"), ("false", "true"), ("break", "continue"), ("continue", "break"), ("i+1", "i"), ("i+2", "i+1"), (" + 1", ""), (" - 1", ""), ("RLock()", "Lock()"), ("RUnlock()", "Unlock()")]
def sh(cmd, cwd, t=None, env={}):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, errors="replace", timeout=t)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"
def mutants(lines, lo, hi):
    for n in range(lo, hi):
        l = lines[n]
        s = l.strip()
        if not s or s.startswith(("//", "/*", "package", "import", "func ", "type ")): continue
        code = l.split("//")[0] if '"' not in l else l
        for a, b in SWAPS:
            for m in re.finditer(re.escape(a), code):
                k = code[m.start()-1:m.start()] + code[m.end():m.end()+1]
                if a.isalpha() and re.search(r"\w", k): continue
                if a == "==" and "!" in k or a in (">=",) and ":" in k: continue
                yield n, l[:m.start()] + b + l[m.end():], "%s -> %s" % (a.strip(), b.strip())
        if re.match(r"^(defer )?[\w.\[\]]+(\(.*\)|\s*=\s.*|\+\+|--)$", s) and not s.endswith("{"):
            yield n, re.match(r"\s*", l).group() + "_ = 0", "deleted"
        m = re.match(r"^(\s*)(}? ?else )?if (.*) \{$", l)
        if m and ";" not in m.group(3):
            yield n, "%s%sif false && (%s) {" % (m.group(1), m.group(2) or "", m.group(3)), "never"
        if s in ("return",): yield n, re.match(r"\s*", l).group(), "deleted"
out = open(os.environ.get("OUT", "/dev/stdout"), "a")
for arg in sys.argv[1:]:
    f, _, r = arg.partition(":")
    lines = open("/repo/" + f).read().split("\n")
    lo, hi = (int(x) - 1 for x in r.split("-")) if r else (0, len(lines))
    for n, new, what in mutants(lines, lo, hi):
        tmp = tempfile.mkdtemp(prefix="mutant")
        wt = tmp + "/repo"
        try:
            sh(["git", "clone", "-q", "/repo", wt], "/")
            open(wt + "/" + f, "w").write("\n".join(lines[:n] + [new] + lines[n+1:]))
            rc, _ = sh(["go", "build", "./..."], wt)
            if rc: continue
            rc, _ = sh(["go", "test", "-count=1", "-timeout=20s", "./..."], wt, 60)
            if rc: continue
            hit = "SURVIVES"
            for c in os.environ.get("CHECKS", "").split():
                rc, o = sh(["/verif/check.sh", c, "-seconds", os.environ.get("SECS", "10")], "/verif", env={"VERIF_REPO": wt})
                if rc:
                    hit = "%s rc=%d %s" % (c, rc, o[:60].replace("\n", " "))
                    break
            print("%s:%d %s | %s | %s" % (f, n + 1, what, new.strip(), hit), file=out, flush=True)
        finally:
            shutil.rmtree(tmp)
