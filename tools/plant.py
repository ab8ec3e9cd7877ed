#!/usr/bin/env python3
"""plant.py ID...: confirms planted bugs (seeded/ID) in a scratch copy of /repo and runs the checks on it in turn

Confirms: the patch applies, changes lines of the original repository, builds, passes the tests; the demonstration
passes without and fails with it. Then runs the quick check of its property (or those after --checks) in /repo with
the patch applied and undoes it.
"""
import json, os, subprocess, sys, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "f869649"

def sh(cmd, cwd="/repo", **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def original(patch):
    """number of changed lines which stem from the original repository"""
    n, f, lines, pos = 0, None, [], 0
    for l in open(patch):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            lines = sh("git blame -s --abbrev=7 HEAD -- %s" % f).stdout.split("\n")
        elif l.startswith("@@"):
            pos = int(l.split()[1][1:].split(",")[0]) - 1
        elif l.startswith("-") and not l.startswith("---"):
            n += lines[pos].startswith("^" + BASE)
            pos += 1
        elif l.startswith(" "):
            pos += 1
    return n

def main(ids, checks, only_checks):
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        patch = os.path.join(d, "patch.diff")
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        res = {"orig": original(patch)}
        try:
            if not only_checks:
                res["demo0"] = sh("bash %s/demo.sh" % d, timeout=300).returncode
            if sh("git apply --check %s" % patch).returncode:
                print(i, "DOES NOT APPLY"); continue
            sh("git apply %s" % patch)
            if not only_checks:
                res["build"] = sh("bash /opt/vp/build.sh").returncode
                out = tempfile.mktemp()
                sh("flock /tmp/vp-test.lock bash /opt/vp/test.sh %s" % out)  # the log is shared
                base = json.load(open("/opt/vp/BASELINE.json"))
                names = base if isinstance(base, list) else base.get("stable") or base.get("passed") or base.get("tests")
                t = json.load(open(out)); os.unlink(out)
                passed = set(t["passed"] if "passed" in t else [k for k, v in t.items() if v in ("pass", True)])
                missing = [n for n in names if n not in passed]
                res["tests"] = "ok" if not missing else missing[:3]
                r = sh("bash %s/demo.sh" % d, timeout=300)
                res["demo1"] = r.returncode
                res["says"] = [x.strip() for x in r.stdout.split("\n") if "demo_test.go" in x or "panic:" in x or "DATA RACE" in x or "fatal error" in x][:1]
            for c in checks or [prop]:
                r = sh("python3 run.py %s quick" % c, cwd=HERE)
                res[c] = "caught" if r.returncode == 1 and "VIOLATION property=%s" % c in r.stdout else "missed" if r.returncode == 0 else "exit %d" % r.returncode
        finally:
            sh("git checkout -- .")
        bad = not only_checks and not (res["demo0"] == 0 and res["demo1"] != 0 and res["tests"] == "ok" and res["build"] == 0 and res["orig"])
        print(i, prop, "BAD" if bad else "ok", res, flush=True)

if __name__ == "__main__":
    args = sys.argv[1:]
    only = "--only-checks" in args
    if only: args.remove("--only-checks")
    checks = []
    if "--checks" in args:
        k = args.index("--checks"); checks = args[k+1].split(","); del args[k:k+2]
    main(args or sorted(os.listdir(os.path.join(HERE, "seeded"))), checks, only)
