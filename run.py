#!/usr/bin/env python3
"""run.py ID quick|thorough: decides one property (see DESIGN.md)

Builds the test binary from /verif/harness against /repo's working tree, runs
the generated checks of the property with VERIF_SEED, writes evidence/ID.json.
exit 0: held, exit 1: VIOLATION line, exit 2: no answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
RACE = {"C17"}
# how many times the number of cases in the harness a quick run has (default 4)
QUICK = {"C06": 1.5, "C17": 1, "C12": 10, "C14": 10, "C15": 10, "C16": 10, "C23": 8, "C25": 8, "C26": 8, "C27": 8, "C13": 6, "C11": 6, "C04": 6, "C09": 6, "C21": 2.5, "C01": 3, "C08": 3}
FUZZ_SECONDS = 60

def env():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GONOSUMDB="*", CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    return e

def build(tmp, race=False, fuzz=False):
    """go test -c with a private copy of go.mod and go.sum"""
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HERE, "harness", f), tmp)
    exe = os.path.join(tmp, "fuzz.test" if fuzz else "harness.test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", os.path.join(tmp, "go.mod"), "-o", exe]
    if race:
        cmd.append("-race")
    if fuzz:
        cmd.append("-fuzz=FuzzAny")  # coverage instrumentation
    r = subprocess.run(cmd + ["."], cwd=os.path.join(HERE, "harness"), env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-4000:])
        print("ERROR: the harness does not build")
        return None
    return exe

def call(cmd, work, e, timeout):
    try:
        r = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode("utf-8", "replace")

def run(exe, work, pid, tier, seed, factor, timeout):
    """the random runs of one property with one seed"""
    os.makedirs(work, exist_ok=True)
    e = env()
    e.update(VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_STATS=os.path.join(work, "stats.json"), VERIF_FACTOR=str(factor), TMPDIR=work,
             GORACE="halt_on_error=0 history_size=3")
    return call([exe, "-test.run", r"^Test%s(_|$)|^TestReg_%s_" % (pid, pid), "-test.timeout", "%ds" % timeout,
                 "-rapid.seed", str(seed), "-rapid.shrinktime", "20s"], work, e, timeout + 60)

def fuzz(exe, work, test, seed, seconds):
    """a coverage-guided run of one test"""
    os.makedirs(work, exist_ok=True)
    e = env()
    e.update(VERIF_SEED=str(seed), VERIF_FUZZ=test, TMPDIR=work)
    return call([exe, "-test.run", "^$", "-test.fuzz", "^FuzzAny$", "-test.fuzztime", "%ds" % seconds, "-test.fuzzminimizetime", "20x",
                 "-test.fuzzcachedir", os.path.join(work, "cache")], work, e, seconds + 300)

def judge(code, out):
    """-> held | violation | error"""
    if code == 0:
        return "held"
    if code is None or code < 0:
        return "error"
    if "WARNING: DATA RACE" in out and "abichinger/fastac" in out:
        return "violation"
    m = re.search(r"^HANG: .*", out, re.M)
    if m:  # a case did not end within minutes: it loops or waits inside of fastac
        for g in out[m.end():].split("\n\n"):
            if "harness.Test" in g and "github.com/abichinger/fastac" in g and "/repo/" in g:
                return "violation"
        return "error"
    if re.search(r"^panic: test timed out", out, re.M):
        # a goroutine which waits for a lock inside of fastac for minutes is a deadlock, everything else is inconclusive
        for g in out.split("\n\n"):
            head = g.strip().split("\n", 1)[0]
            if re.match(r"goroutine \d+ .*\[(sync\.\w+\.\w+|semacquire)(, \d+ minutes.*)?\]", head) and "abichinger/fastac" in g:
                return "violation"
        return "error"
    if re.search(r"^(fatal error|panic): .*out of memory|cannot allocate memory", out, re.M):
        return "error"
    if re.search(r"^\s*--- FAIL: Test", out, re.M):
        return "violation"
    if re.search(r"^(fatal error|runtime: goroutine stack exceeds|panic):", out, re.M) and "abichinger/fastac" in out:
        return "violation"  # the process died inside of the code under test
    return "error"

def known(pid):
    path = os.path.join(HERE, "known-findings.txt")
    for line in open(path):
        m = re.match(r"finding: property=(\S+) (.*)", line)
        if m and m.group(1) == pid:
            print("KNOWN-FINDING: property=%s %s" % (pid, m.group(2).strip()))

def merge(files):
    st = {"evaluations": 0, "distinct_nontrivial": 0, "rules": {}, "samples": [], "classes": {}, "cases_per_test": {}}
    for f in files:
        if not os.path.exists(f):
            continue
        d = json.load(open(f))
        for k in ("evaluations", "distinct_nontrivial"):
            st[k] += d.get(k, 0)
        st["rules"].update(d.get("rules") or {})
        st["samples"] += (d.get("samples") or [])[:12 if not st["samples"] else 2]
        for k in ("classes", "cases_per_test"):
            for n, v in (d.get(k) or {}).items():
                st[k][n] = st[k].get(n, 0) + v
    return st

def main():
    if sys.argv[1] == "setup":  # warms the build cache
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            ok = all([build(tmp, race) for race in (False, True)])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0 if ok else 2
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1) or 1
    start = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        exe = build(tmp, pid in RACE)
        if exe is None:
            return 2
        works, outs, execs = [os.path.join(tmp, "work0")], [], {}
        if tier == "quick":
            outs.append(run(exe, works[0], pid, tier, seed, QUICK.get(pid, 4), 600))
        else:  # several seeds at once, then coverage-guided runs
            n = 3 if pid in RACE else 8
            works = [os.path.join(tmp, "work%d" % i) for i in range(n)]
            with ThreadPoolExecutor(n) as pool:
                outs = list(pool.map(lambda i: run(exe, works[i], pid, tier, seed + 1000 * i, 1, 7200), range(n)))
            if all(judge(*o) == "held" for o in outs) and pid not in RACE:
                fexe = build(tmp, fuzz=True)
                if fexe is None:
                    return 2
                tests = re.findall(r'"(Test%s_\w+)"' % pid, open(os.path.join(HERE, "harness", "tests_test.go")).read())
                for t in tests:
                    work = os.path.join(tmp, "fuzz-" + t)
                    works.append(work)
                    outs.append(fuzz(fexe, work, t, seed, FUZZ_SECONDS))
                    m = re.findall(r"execs: (\d+)", outs[-1][1])
                    execs[t] = int(m[-1]) if m else 0
        verdicts = [judge(*o) for o in outs]
        verdict = "violation" if "violation" in verdicts else "error" if "error" in verdicts else "held"
        code, out = next((o for o, v in zip(outs, verdicts) if v == verdict), outs[0])
        st = merge([os.path.join(w, "stats.json") for w in works])
        cov = {"evaluations": st["evaluations"], "distinct_nontrivial": st["distinct_nontrivial"],
               "rule": " | ".join("%s: %s" % kv for kv in sorted(st["rules"].items())) or "no statistics",
               "samples": st["samples"], "classes": st["classes"], "cases_per_test": st["cases_per_test"]}
        if execs:
            cov["coverage_guided_executions"] = execs
        man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
        level = next((c["level"] for c in man["checks"] if c["property"] == pid), "exploration")
        ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - start, 2), "violations": 1 if verdict == "violation" else 0}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial%s, %.1fs" % (pid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"],
              ", %d coverage-guided executions" % sum(execs.values()) if execs else "", time.time() - start))
        known(pid)
        if verdict == "held":
            if not cov["distinct_nontrivial"]:
                print("ERROR: nothing was tested")
                return 2
            return 0
        print(out[-6000:])
        if verdict == "error":
            print("ERROR: no answer (exit code %s)" % code)
            return 2
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        replay = os.path.join(HERE, "replays", "%s-%s-%d.txt" % (pid, tier, seed))
        fails = []
        for work in works:
            for root, _, files in os.walk(os.path.join(work, "testdata")):
                for f in files:
                    src = os.path.join(root, f)
                    if f.endswith(".fail"):
                        dst = os.path.join(HERE, "replays", f)
                        fails.append("replay.sh %s %s" % (os.path.basename(root), dst))
                    elif os.path.basename(root) == "FuzzAny":
                        dst = os.path.join(HERE, "replays", "fuzz-" + f)
                        fails.append("replay.sh %s %s" % (os.path.basename(work)[len("fuzz-"):], dst))
                    else:
                        continue
                    shutil.copy(src, dst)
        with open(replay, "w") as f:
            f.write("# property %s, tier %s, seed %d\n" % (pid, tier, seed))
            f.write("# again: VERIF_SEED=%d python3 %s/run.py %s %s\n" % (seed, HERE, pid, tier))
            for line in fails:
                f.write("# minimal case: %s/%s\n" % (HERE, line))
            f.write(out)
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
