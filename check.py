#!/usr/bin/env python3
"""Driver of the checks: builds the generated checks against /repo's working tree
and runs them. See DESIGN.md.

  check.py <id> [quick|thorough]     run the check of a property
  check.py <id> --replay FILE        re-run one saved case
"""
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from checks import CHECKS

SHARDS = int(os.environ.get("VH_SHARDS_OVERRIDE", "8"))


def goenv():
    env = dict(os.environ)
    env.update(HOME=env.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOFLAGS="-mod=readonly", GONOSUMDB="*", GONOSUMCHECK="1")
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:" + env.get("PATH", "")
    cache = "/root/.cache/go-build"
    if not os.path.isdir(cache) or not os.access(cache, os.W_OK):
        cache = os.path.join(tempfile.gettempdir(), "vh-gocache")
    env["GOCACHE"] = cache
    for k in list(env):
        if k.startswith("VH_"):
            del env[k]
    return env


def overlay(group, work):
    rep = {REPO + "/go.mod": HARNESS + "/mod/go.mod", REPO + "/go.sum": HARNESS + "/mod/go.sum"}
    for f in glob.glob(REPO + "/*_test.go"):
        rep[f] = ""
    for f in sorted(glob.glob(HARNESS + "/" + group + "/*_test.go")):
        rep[REPO + "/vh_" + os.path.basename(f)] = f
    p = os.path.join(work, "overlay.json")
    with open(p, "w") as fh:
        json.dump({"Replace": rep}, fh)
    return p


def build(group, race, work, fuzz=None):
    out = os.path.join(work, "fuzz.test" if fuzz else "check.test")
    ov = overlay(group, work)
    if fuzz:
        # one fuzz target for every test; only the code under test is instrumented
        src = os.path.join(work, "fuzz_test.go")
        with open(src, "w") as fh:
            fh.write("package %s\n\nimport (\n\t\"testing\"\n\n\t\"verif.local/vh\"\n)\n" % ("gojsonsm_test" if group == "api" else "gojsonsm"))
            for t in fuzz:
                fh.write("\nfunc Fuzz%s(f *testing.F) { vh.Fuzz(f, Test%s) }\n" % (t, t))
        rep = json.load(open(ov))
        rep["Replace"][REPO + "/vh_fuzz_test.go"] = src
        ov = os.path.join(work, "overlay-fuzz.json")
        json.dump(rep, open(ov, "w"))
    cmd = ["go", "test", "-c", "-vet=off", "-overlay=" + ov, "-o", out]
    if fuzz:
        cmd.append("-gcflags=github.com/couchbaselabs/gojsonsm=-d=libfuzzer")
    if race:
        cmd.append("-race")
    cmd.append(".")
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print("BUILD FAILED")
        sys.exit(3)
    return out


def run_env(prop, spec, work, extra):
    env = goenv()
    env.update(VH_OUT=work, VH_CORPUS=os.path.join(VERIF, "corpus"))
    env.update({k: str(v) for k, v in extra.items()})
    if spec.get("race"):
        env["GORACE"] = "halt_on_error=1 exitcode=66 atexit_sleep_ms=0"
        env["GOMAXPROCS"] = "4"
    else:
        env["GOMAXPROCS"] = "2"
    env["GOGC"] = "200"
    return env


def start(binary, spec, work, extra, logname):
    cmd = [binary, "-test.run", "^Test" + spec["id"] + "_", "-test.timeout", "0", "-rapid.nofailfile",
           "-rapid.shrinktime", "20s", "-test.failfast"]
    log = open(os.path.join(work, logname), "wb")
    cwd = os.path.join(work, "cwd")
    os.makedirs(cwd, exist_ok=True)
    return subprocess.Popen(cmd, cwd=cwd, env=run_env(spec["id"], spec, work, extra), stdout=log, stderr=subprocess.STDOUT,
                            start_new_session=True)


def wait(p, secs):
    try:
        return p.wait(timeout=secs)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        return None


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode("utf8", "replace")
    except OSError:
        return ""


def known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                out.append(line[len("known: "):])
    return out


def replay_run(binary, spec, work, path, repeat=1, secs=180):
    p = start(binary, spec, work, dict(VH_REPLAY=path, VH_REPEAT=repeat, VH_HANG=90), "replay.log")
    rc = wait(p, secs)
    return rc, tail(os.path.join(work, "replay.log"))


def crashed(rc, log):
    """A death of the process that is the code's doing: a Go fatal error, a data race, a signal of its own."""
    if rc == 66 or "DATA RACE" in log:
        return True
    return any(s in log for s in ("fatal error: stack overflow", "goroutine stack exceeds", "fatal error: concurrent map",
                                  "unexpected fault address", "SIGSEGV", "SIGBUS", "fatal error: all goroutines are asleep",
                                  "panic: ", "fatal error: out of memory", "runtime: out of memory", "fatal error: makeslice",
                                  "cannot allocate memory", "fatal error: checkptr", "invalid memory address"))


def main():
    prop = sys.argv[1]
    if prop == "setup":  # fills the build cache
        work = tempfile.mkdtemp(prefix="vh-setup-")
        try:
            for group, race in sorted({(s["group"], s.get("race", False)) for s in CHECKS.values()}):
                build(group, race, work)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        return 0
    spec = dict(CHECKS[prop])
    spec["id"] = prop
    work = tempfile.mkdtemp(prefix="vh-%s-" % prop)
    try:
        return run(prop, spec, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, spec, work):
    t0 = time.time()
    if "--replay" in sys.argv:
        path = os.path.abspath(sys.argv[sys.argv.index("--replay") + 1])
        binary = build(spec["group"], spec.get("race", False), work)
        rc, log = replay_run(binary, spec, work, path, repeat=20 if spec.get("race") else 1)
        print(log)
        if rc == 0:
            print("the case holds")
            return 0
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    scale = 100 if tier == "quick" else spec.get("thorough", 1500)
    deadline = 240 if tier == "quick" else 3000
    if "VH_SCALE" in os.environ:
        scale = int(os.environ["VH_SCALE"])
    binary = build(spec["group"], spec.get("race", False), work)
    tb = time.time()
    extra = dict(VH_SEED=seed, VH_SHARDS=SHARDS, VH_SCALE=scale, VH_DEADLINE=deadline)
    if spec.get("race"):
        extra["VH_RECORD"] = 1
    procs = [start(binary, spec, work, dict(extra, VH_SHARD=i), "shard-%d.log" % i) for i in range(SHARDS)]
    rcs = []
    for p in procs:
        rcs.append(wait(p, deadline + 400))
    violations = []  # (case path in work, message)
    errors = []
    for i, rc in enumerate(rcs):
        log = tail(os.path.join(work, "shard-%d.log" % i), 20000)
        if rc == 0:
            continue
        fails = glob.glob(os.path.join(work, "fail-*-%d.json" % i))
        stuck = os.path.join(work, "stuck-%d.json" % i)
        if "HARNESS:" in log and not fails:
            errors.append("shard %d: %s" % (i, log[-3000:]))
        elif fails:
            for f in fails:
                c = json.load(open(f))
                if c.get("error", "").startswith("HARNESS:") or "panic: HARNESS" in c.get("error", ""):
                    errors.append("shard %d: %s" % (i, c["error"][:3000]))
                else:
                    violations.append((f, c.get("error", "")))
        elif os.path.exists(stuck):
            rc2, log2 = replay_run(binary, spec, work, stuck, secs=150)
            if rc2 == 0:
                errors.append("shard %d: a case was slow but ends on its own: %s" % (i, open(stuck).read()[:2000]))
            else:
                violations.append((stuck, json.load(open(stuck)).get("error", "")))
        elif rc is None:
            errors.append("shard %d: killed by the driver's time limit\n%s" % (i, log[-1500:]))
        elif crashed(rc, log):
            rec = os.path.join(work, "record-%d.json" % i)
            if not spec.get("race"):
                # run the same shard again, writing every case before it is executed
                p = start(binary, spec, work, dict(extra, VH_SHARD=i, VH_RECORD=1), "again-%d.log" % i)
                rc2 = wait(p, deadline + 400)
                if rc2 == 0 or not os.path.exists(rec):
                    errors.append("shard %d: died (%s) but not when run again\n%s" % (i, rc, log[-3000:]))
                    continue
            keep = os.path.join(work, "crash-%d.json" % i)
            shutil.copy(rec, keep)
            c = json.load(open(keep))
            c["error"] = "the process died: " + first_fatal(log)
            json.dump(c, open(keep, "w"))
            violations.append((keep, c["error"]))
        else:
            errors.append("shard %d: exit %s\n%s" % (i, rc, log[-3000:]))
    secs = int(os.environ.get("VH_FUZZ", "0" if tier == "quick" else "60"))
    if secs > 0 and not violations and not errors and not spec.get("race"):
        fuzz(prop, spec, work, extra, secs, violations, errors)
    write_evidence(prop, spec, tier, seed, work, len(violations), t0, tb, scale)
    for k in known(prop):
        print("KNOWN-FINDING: " + k)
    if violations:
        f, msg = min(violations, key=lambda v: os.path.getsize(v[0]))
        dst_dir = os.path.join(VERIF, "replays")
        os.makedirs(dst_dir, exist_ok=True)
        data = open(f, "rb").read()
        dst = os.path.join(dst_dir, "%s-%s.json" % (prop, hashlib.sha1(data).hexdigest()[:10]))
        open(dst, "wb").write(data)
        print(msg[:4000])
        rc, log = replay_run(binary, spec, work, dst, repeat=20 if spec.get("race") else 1)
        print("replayed in a fresh process: %s" % ("reproduced" if rc != 0 else "not reproduced (it depends on the earlier cases of the run)"))
        print("VIOLATION property=%s replay=%s" % (prop, dst))
        return 1
    if errors:
        print("\n".join(errors)[:8000])
        print("ERROR: the check of %s did not complete" % prop)
        return 3
    return 0


def fuzz(prop, spec, work, extra, secs, violations, errors):
    """Coverage-guided: the generators run on the bytes of Go's fuzzer."""
    tests = []
    for f in sorted(glob.glob(os.path.join(HARNESS, spec["group"], "*_test.go"))):
        tests += re.findall(r"^func Test(%s_\w+)\(t \*testing\.T\)" % prop, open(f).read(), re.M)
    binary = build(spec["group"], False, work, tests)
    cwd = os.path.join(work, "cwd")
    for t in tests:
        extra = dict(extra, VH_SHARD=1000 + tests.index(t), VH_DEADLINE=secs + 600, TMPDIR=work)
        args = [binary, "-test.run", "^$", "-test.fuzz", "^Fuzz%s$" % t, "-test.fuzztime", "%ds" % secs, "-test.fuzzminimizetime", "200x",
                "-test.parallel", str(SHARDS), "-test.fuzzcachedir", os.path.join(work, "fuzzcache"), "-test.timeout", "0"]
        logname = os.path.join(work, "fuzz-%s.log" % t)
        p = subprocess.Popen(args, cwd=cwd, env=run_env(prop, spec, work, extra), stdout=open(logname, "wb"), stderr=subprocess.STDOUT, start_new_session=True)
        rc = wait(p, secs + 400)
        log = tail(logname, 20000)
        last = [l for l in log.splitlines() if l.startswith("fuzz: elapsed")][-1:]
        print("%s: %s" % (t, last[0] if last else "no progress"))
        if rc == 0:
            continue
        before = len(violations)
        found = False
        for f in glob.glob(os.path.join(work, "fail-*-%d.json" % extra["VH_SHARD"])) + glob.glob(os.path.join(work, "stuck-%d.json" % extra["VH_SHARD"])):
            c = json.load(open(f))
            if c.get("error", "").startswith("HARNESS:") or "panic: HARNESS" in c.get("error", ""):
                errors.append("%s: %s" % (t, c["error"][:3000]))
                found = True
            elif replay_run(spec_binary(work), spec, work, f)[0] != 0:
                violations.append((f, c.get("error", "")))
                found = True
        if not found:
            # the process died: run its last input again, writing down the case
            rec = os.path.join(work, "record-%d.json" % extra["VH_SHARD"])
            p = subprocess.Popen([binary, "-test.run", "^Fuzz%s$" % t], cwd=cwd, env=run_env(prop, spec, work, dict(extra, VH_RECORD=1)),
                                 stdout=open(logname + "2", "wb"), stderr=subprocess.STDOUT, start_new_session=True)
            rc2 = wait(p, 300)
            if rc2 != 0 and crashed(rc2, tail(logname + "2", 20000)) and os.path.exists(rec):
                violations.append((rec, "the process died: " + first_fatal(tail(logname + "2", 20000))))
            else:
                print("%s: the fuzzer ended early: %s" % (t, log[-1500:]))
        if len(violations) > before:
            return


def spec_binary(work):
    return os.path.join(work, "check.test")


def first_fatal(log):
    for line in log.splitlines():
        if "fatal error" in line or "DATA RACE" in line or line.startswith("panic:") or "SIGSEGV" in line:
            return line.strip() + "\n" + log[-6000:]
    return log[-3000:]


def write_evidence(prop, spec, tier, seed, work, nviol, t0, tb, scale):
    checks = {}
    distinct = {}
    for f in sorted(glob.glob(os.path.join(work, "stats-*.json"))):
        s = json.load(open(f))
        c = checks.setdefault(s["check"], dict(evaluations=0, nontrivial=0, saved_cases=0, rule=s["rule"], skipped={}, labels={}, samples=[],
                                               stopped_by_deadline=0, cpu_s=0.0))
        c["evaluations"] += s["evals"]
        c["nontrivial"] += s["nontrivial"]
        c["saved_cases"] += s["corpus"]
        c["cpu_s"] = round(c["cpu_s"] + s["wall_s"], 2)
        c["stopped_by_deadline"] += bool(s["deadline"])
        for k in ("skipped", "labels"):
            for l, n in (s[k] or {}).items():
                c[k][l] = c[k].get(l, 0) + n
        c["samples"] += s["samples"] or []
        h = f.replace("stats-", "hash-").replace(".json", ".bin")
        if os.path.exists(h):
            data = open(h, "rb").read()
            distinct.setdefault(s["check"], set()).update(struct.unpack("<%dQ" % (len(data) // 8), data))
    samples = []
    for n, c in checks.items():
        c["distinct_nontrivial"] = len(distinct.get(n, ()))
        c["labels"] = dict(sorted(c["labels"].items()))
        samples += [x for x in c.pop("samples")][:6]
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="exploration",
              coverage=dict(evaluations=sum(c["evaluations"] for c in checks.values()),
                            distinct_nontrivial=sum(c["distinct_nontrivial"] for c in checks.values()),
                            rule="; ".join("%s: %s" % (n, c["rule"]) for n, c in checks.items()),
                            samples=samples[:24], checks=checks, shards=SHARDS, budget_percent=scale,
                            build_s=round(tb - t0, 1)),
              wall_s=round(time.time() - t0, 2), violations=nviol, assumptions=spec.get("assumptions", []))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
