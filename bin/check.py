#!/usr/bin/env python3
"""Runs the generated-input check of one property.

  check.py ID              tier and seed from VERIF_TIER (quick|thorough) and VERIF_SEED
  check.py ID --replay F   runs one saved counterexample again

Exit 0: held on everything explored. Exit 1 with a VIOLATION line: broken. Anything else: the check could not decide.
"""
import concurrent.futures, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
REPLAYS = os.path.join(VERIF, "out", "replays")
NOBODY = 65534
KNOWN = os.path.join(VERIF, "known_findings.txt")


def error(msg, out=""):
    sys.stdout.flush()
    print("CHECK-ERROR " + msg, file=sys.stderr)
    if out:
        print(out[-6000:], file=sys.stderr)
    sys.exit(3)


def go_env():
    env = dict(os.environ)
    path = env.get("PATH", "")
    env["PATH"] = "/opt/veriftools/go1.27.3/bin:" + path
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOTRACEBACK="all")
    for k in list(env):
        if k.startswith("RAPID_") or k in ("GODEBUG", "GOMAXPROCS"):
            del env[k]
    return env


def seed_for(seed, test, shard):
    h = hashlib.sha256(("%d/%s/%d" % (seed, test, shard)).encode()).digest()
    return int.from_bytes(h[:8], "big") % (2 ** 63 - 1) + 1  # never 0: rapid takes 0 as "random"


def build(prop, scratch, env, race=False):
    # the module file is copied, so that nothing the go tool does to it reaches /verif
    mod = os.path.join(scratch, "go.mod")
    shutil.copy(os.path.join(HARNESS, "go.mod"), mod)
    shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(scratch, "go.sum"))
    binary = os.path.join(scratch, prop + ".test")
    cmd = ["go", "test", "-c", "-modfile", mod, "-vet=off", "-o", binary]
    if race:
        cmd.append("-race")
    p = subprocess.run(cmd + ["./p/" + prop.lower()], cwd=HARNESS, env=env, text=True, errors="replace",
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0 or not os.path.exists(binary):
        error("cannot build the harness of %s against /repo" % prop, p.stdout)
    return binary


def run_test(binary, test, shard, seed, mult, unprivileged, scratch, env, timeout, failfile=None):
    wd = tempfile.mkdtemp(prefix="%s.%d." % (test, shard), dir=scratch)
    out = wd + ".stats"
    os.mkdir(out)
    kw = {}
    if unprivileged and os.geteuid() == 0:
        # the code under test deletes files: it runs as a user that owns nothing but its scratch directory
        os.chmod(scratch, 0o711)
        os.chmod(binary, 0o755)
        for d in (wd, out):
            os.chown(d, NOBODY, NOBODY)
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    env = dict(env, VT_OUT=out, VT_MULT=str(mult), VT_SCRATCH=wd)
    s = seed_for(seed, test, shard)
    cmd = [binary, "-test.run", "^" + test + "$", "-test.v", "-test.count=1", "-test.timeout=0",
           "-rapid.seed=%d" % s, "-rapid.shrinktime=20s"]
    if failfile:
        os.chmod(failfile, 0o644)
        cmd.append("-rapid.failfile=" + failfile)
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=wd, env=env, text=True, errors="replace", stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
        rc, text = p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        rc, text = "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    stats = []
    for f in sorted(os.listdir(out)):
        if f.endswith(".stats.json"):
            with open(os.path.join(out, f), encoding="utf-8", errors="replace") as fh:
                st = json.load(fh)
            with open(os.path.join(out, f.replace(".stats.json", ".hashes")), "rb") as fh:
                st["hashes"] = fh.read()
            stats.append(st)
    return dict(test=test, shard=shard, seed=s, rc=rc, out=text, stats=stats, wd=wd, wall=time.time() - t0, mult=mult)


def verdict(r):
    """ok, violation or error, with a reason"""
    rc, out = r["rc"], r["out"]
    if rc == 0 and re.search(r"^(PASS|ok)", out, re.M) and "no tests to run" not in out:
        return "ok", ""
    if rc == "timeout":
        return "error", "ran out of wall-clock time"
    if rc == 97 and "VT-ABORT" in out:
        return "violation", out[out.index("VT-ABORT"):].splitlines()[0]
    if rc == 1 and "--- FAIL" in out:
        if re.search(r"\[rapid\] only generated \d+ valid tests", out) and "[rapid] failed" not in out and "[rapid] panic" not in out:
            return "error", "the generator rejects too much"
        if "\nLINT-" in out or "VT-INFRA" in out:
            return "error", "infrastructure"
        m = re.search(r"\[rapid\] (failed|panic|flaky)[^\n]*", out)
        return "violation", m.group(0) if m else "a fixed or enumerated case fails"
    if rc == 2 and re.search(r"^(panic:|fatal error:|WARNING: DATA RACE)", out, re.M) and "bantling/micro" in out:
        if "cannot allocate memory" in out or "failed to create new OS thread" in out:
            return "error", "out of memory or threads"
        m = re.search(r"^(panic:|fatal error:)[^\n]*", out, re.M)
        return "violation", "process died: " + (m.group(0) if m else "")
    if rc == 66 and "DATA RACE" in out:
        return "violation", "data race"
    return "error", "unexpected exit %s" % rc


def save_replay(prop, r, why, seed, tier):
    os.makedirs(REPLAYS, exist_ok=True)
    base = os.path.join(REPLAYS, "%s-%s-%d" % (prop, r["test"], r["shard"]))
    fails = []
    for d, _, fs in os.walk(os.path.join(r["wd"], "testdata")):
        fails += [os.path.join(d, f) for f in fs if f.endswith(".fail")]
    data = dict(property=prop, test=r["test"], shard=r["shard"], verif_seed=seed, tier=tier, rapid_seed=r["seed"], mult=r["mult"],
                why=why, failfile=None, output=r["out"][-20000:])
    if fails:
        with open(fails[0], encoding="utf-8", errors="surrogateescape") as fh:
            data["failfile"] = fh.read()
    with open(base + ".json", "w") as fh:
        json.dump(data, fh, indent=1)
    return base + ".json"


def known_lines(prop):
    res = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == prop:
                    res.append((m.group(2), m.group(3)))
    return res


def main():
    sys.stdout.reconfigure(errors="replace")
    if len(sys.argv) < 2:
        error("usage: check.py ID [--replay FILE]")
    prop = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        error("VERIF_TIER is %r" % tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        error("VERIF_SEED is not a number")
    t0 = time.time()
    conf = {}
    cpath = os.path.join(HARNESS, "p", prop.lower(), "conf.json")
    if os.path.exists(cpath):
        with open(cpath) as fh:
            conf = json.load(fh)
    env = go_env()
    known = known_lines(prop)
    env["VT_KNOWN"] = ",".join(k for k, _ in known)
    unprivileged = conf.get("unprivileged", False)
    scratch = tempfile.mkdtemp(prefix="vcheck-%s-" % prop)
    try:
        binary = build(prop, scratch, env, race=conf.get("race", False))
        if len(sys.argv) == 4 and sys.argv[2] == "--replay":
            with open(sys.argv[3]) as fh:
                rep = json.load(fh)
            ff = None
            if rep.get("failfile"):
                ff = os.path.join(scratch, "replay.fail")
                with open(ff, "w", encoding="utf-8", errors="surrogateescape") as fh:
                    fh.write(rep["failfile"])
            r = run_test(binary, rep["test"], rep["shard"], rep["verif_seed"], 0.0001 if ff else rep["mult"], unprivileged, scratch, env, 800, ff)
            v, why = verdict(r)
            print(r["out"][-8000:])
            if v == "violation":
                print("VIOLATION property=%s replay=%s" % (prop, sys.argv[3]))
                sys.exit(1)
            if v == "error":
                error(why)
            print("the case passes")
            sys.exit(0)
        p = subprocess.run([binary, "-test.list", "."], cwd=scratch, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        tests = [l for l in p.stdout.split() if re.match(r"Test\w+$", l)]
        if p.returncode != 0 or not tests:
            error("cannot list the tests of %s" % prop, p.stdout)
        mult = 1.0 if tier == "quick" else float(conf.get("thorough_mult", 8))
        shards = int(conf.get("quick_shards", 3) if tier == "quick" else conf.get("thorough_shards", 6))
        timeout = 780 if tier == "quick" else 5400
        jobs = [(t, s) for s in range(shards) for t in tests if s == 0 or not (t.startswith(("TestTable", "TestAll", "TestKnown")))]
        workers = min(int(conf.get("workers", 8)), os.cpu_count() or 1)
        results = []
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            futs = [ex.submit(run_test, binary, t, s, seed, mult, unprivileged, scratch, env, timeout) for t, s in jobs]
            for f in futs:
                results.append(f.result())
        violations, errors, evaluations, distinct = [], [], 0, 0
        rules, samples, hashes, per_test, reproduced = [], [], {}, {}, []
        for r in results:
            v, why = verdict(r)
            if v == "violation":
                violations.append((r, why))
            elif v == "error":
                errors.append((r, why))
            if v == "ok" and not r["stats"] and not r["test"].startswith("TestKnown"):
                errors.append((r, "no statistics were written"))
            for k in re.findall(r"^\s*(?:\S+:\d+: )?VT-KNOWN-REPRODUCED (\S+)", r["out"], re.M):
                if k not in reproduced:
                    reproduced.append(k)
            for st in r["stats"]:
                evaluations += st["evaluations"]
                pt = per_test.setdefault(st["test"], dict(evaluations=0, distinct_nontrivial=0, rule=st["rule"], classes={}))
                seen = hashes.setdefault(st["test"], set())
                seen.update(struct.unpack("<%dQ" % (len(st["hashes"]) // 8), st.pop("hashes")))
                pt["evaluations"] += st["evaluations"]
                for k, n in (st.get("classes") or {}).items():
                    pt["classes"][k] = pt["classes"].get(k, 0) + n
                if r["shard"] == 0:
                    rules.append("%s: %s" % (st["test"], st["rule"]))
                    for s in (st.get("samples") or [])[-2:]:
                        samples.append("%s: %s" % (st["test"], s))
        for t, seen in hashes.items():
            per_test[t]["distinct_nontrivial"] = len(seen)
            distinct += len(seen)
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
                  coverage=dict(evaluations=evaluations, distinct_nontrivial=distinct,
                                rule="Cases are drawn by rapid generators from VERIF_SEED; per test, what is generated and what counts as non-trivial: "
                                     + "; ".join(rules), samples=samples or ["none"], shards=shards, per_test=per_test),
                  assumptions=conf.get("assumptions", []), wall_s=round(time.time() - t0, 3), violations=len(violations))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
        for k, text in known:
            if k in reproduced:
                print("KNOWN-FINDING: property=%s %s" % (prop, text))
        for r, why in errors:
            print("CHECK-ERROR %s shard %d: %s\n%s" % (r["test"], r["shard"], why, r["out"][-3000:]), file=sys.stderr)
        for r, why in violations:
            path = save_replay(prop, r, why, seed, tier)
            print("-- %s: %s\n%s" % (r["test"], why, r["out"][:6000]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (prop, tier, seed, evaluations, distinct, len(violations), time.time() - t0))
        sys.stdout.flush()
        if violations:
            sys.exit(1)
        if errors:
            sys.exit(3)
        sys.exit(0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    main()
