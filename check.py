#!/usr/bin/env python3
"""check.py ID [quick|thorough]: decide one property of /verif/properties.jsonl.
check.py --setup: build the harness once, to fill the build cache.
check.py --replay FILE: run a saved case again.

Builds /verif/harness against the working tree of /repo, runs the generated
cases of the property in parallel workers, writes evidence/ID.json. Exit 0: the
property held on every case. Exit 1 and a VIOLATION line: it did not. Exit 2:
the check itself failed and says nothing about the property.
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(ROOT, "harness")
WORKERS = 8
MASK = (1 << 64) - 1


def die(msg):
    print("check error: " + msg)
    sys.stdout.flush()
    sys.exit(2)


def goenv():
    env = dict(os.environ)
    env.update(GOPROXY="off", GOTOOLCHAIN="local", GOSUMDB="off", GOFLAGS="-mod=readonly", GOWORK="off")
    env.setdefault("HOME", "/root")
    env.pop("GODEBUG", None)
    return env


def build(out, race):
    cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        die("build failed:\n" + p.stdout[-4000:])


def fuzz(prop, seed, exe, tmp, race, known, seconds):
    """Coverage-guided search over the choices of the generator. Gives what was
    done, a violation as of verdict, and errors."""
    base = os.path.join(tmp, "fuzz")
    os.makedirs(os.path.join(base, "tmp"))
    bin_ = os.path.join(base, "fuzz.test")
    cmd = ["go", "test", "-c", "-vet=off", "-fuzz=FuzzProp", "-o", bin_] + (["-race"] if race else []) + ["."]
    p = subprocess.run(cmd, cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        return {}, None, ["fuzz target does not build: " + p.stdout[-2000:]]
    env = worker_env(base)
    env.update(VERIF_PROP=prop, VERIF_FUZZ=base, VERIF_SEED=str(seed), VERIF_KNOWN=",".join(known))
    log = open(os.path.join(base, "log"), "w+b")
    proc = subprocess.Popen([bin_, "-test.run=^$", "-test.fuzz=FuzzProp", "-test.fuzzcachedir=" + os.path.join(base, "corpus"), "-test.fuzztime=%ds" % seconds,
                             "-test.fuzzminimizetime=10s", "-test.parallel=%d" % WORKERS], cwd=base, env=env, stdout=log, stderr=log, start_new_session=True)
    try:
        code = proc.wait(seconds + 60)
    except subprocess.TimeoutExpired:
        code = None
    finally:
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        proc.wait()
    log.seek(0)
    text = log.read().decode("utf-8", "replace")
    m = re.findall(r"elapsed: (\S+), execs: (\d+) .*?new interesting: (\d+) \(total: (\d+)\)", text)
    done = {"executions": int(m[-1][1]), "elapsed": m[-1][0], "new_coverage": int(m[-1][2])} if m else {}
    path = os.path.join(base, "replay.json")
    if os.path.exists(path):
        data = json.load(open(path))
        return done, (save_replay(prop, "%d-fuzz" % seed, data), data["message"]), []
    if code == 0:
        return done, None, []
    # a process died in a case, if a case does that again
    for name in sorted(os.listdir(base)):
        case = current_case(os.path.join(base, name)) if name.startswith("current-") else None
        if case is None:
            continue
        data = {"property": prop, "message": "the process died while fuzzing\n" + text[-3000:], "case": case}
        path = save_replay(prop, "%d-fuzz" % seed, data)
        rc, _ = replay(exe, path, tmp, tries=5, timeout=60)
        if rc not in (0, 20, None) and rc > 0:
            return done, (path, data["message"]), []
        os.remove(path)
    return done, None, [] if done and code is None else ["fuzzing ended with %s: %s" % (code, text[-2000:])]


def known_findings(prop):
    res = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


class Worker:
    def __init__(self, exe, tmp, n, prop, seed, cases, known, deadline):
        self.n, self.tmp = n, os.path.join(tmp, "w%d" % n)
        os.makedirs(os.path.join(self.tmp, "tmp"))
        self.out = os.path.join(self.tmp, "stats.json")
        self.current = os.path.join(self.tmp, "current")
        self.replay = os.path.join(self.tmp, "replay.json")
        self.log = open(os.path.join(self.tmp, "log"), "w+b")
        self.proc = subprocess.Popen(
            [exe, "run", "-prop", prop, "-seed", str(seed), "-cases", str(cases), "-out", self.out,
             "-current", self.current, "-replay", self.replay, "-known", ",".join(known), "-deadline", "%ds" % deadline],
            env=worker_env(self.tmp), cwd=self.tmp, stdout=self.log, stderr=self.log, start_new_session=True)

    def text(self):
        self.log.seek(0)
        data = self.log.read()
        if len(data) > 8000:
            data = data[:6000] + b"\n...\n" + data[-2000:]
        return data.decode("utf-8", "replace")

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()


def worker_env(tmp):
    env = goenv()
    env.update(VERIF_SCRATCH=tmp, TMPDIR=os.path.join(tmp, "tmp"), GORACE="halt_on_error=1 exitcode=66", GOTRACEBACK="all", GOMAXPROCS="2", GOGC="400")
    return env


def current_case(path):
    try:
        data = open(path, "rb").read()
        n = int.from_bytes(data[:8], "little")
        return json.loads(data[8:8 + n])
    except (OSError, ValueError):
        return None


def replay(exe, path, tmp, tries=300, timeout=300):
    d = tempfile.mkdtemp(dir=tmp)
    os.mkdir(os.path.join(d, "tmp"))
    try:
        p = subprocess.run([exe, "replay", "-n", str(tries), path], env=worker_env(d), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return None, "replay took too long"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def save_replay(prop, seed, data):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-seed%s.json" % (prop, seed))
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")
    return path


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(os.path.join(tmp, "h"), False)
            build(os.path.join(tmp, "hr"), True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        return 0
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        tmp = tempfile.mkdtemp(prefix="verif-replay-")
        try:
            exe = os.path.join(tmp, "h")
            build(exe, False)
            prop = json.load(open(sys.argv[2])).get("property")
            if spec(exe, prop)["race"]:
                build(exe, True)
            code, text = replay(exe, os.path.abspath(sys.argv[2]), tmp)
            print(text)
            return 0 if code == 0 else 1
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    if len(sys.argv) < 2:
        die("which property?")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("tier " + tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        die("VERIF_SEED is not a number")
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)

    def stop(*_):
        raise SystemExit(2)
    signal.signal(signal.SIGTERM, stop)
    workers = []
    try:
        return check(prop, tier, seed, tmp, workers)
    finally:
        for w in workers:
            if w.proc.poll() is None:
                w.kill()
        shutil.rmtree(tmp, ignore_errors=True)


def spec(exe, prop):
    for p in json.loads(subprocess.run([exe, "list"], stdout=subprocess.PIPE, check=True).stdout):
        if p["id"] == prop:
            return p
    die("no property " + str(prop))


def check(prop, tier, seed, tmp, workers):
    start = time.time()
    exe = os.path.join(tmp, "harness")
    build(exe, False)
    p = spec(exe, prop)
    if p["race"]:
        build(exe, True)
    known = known_findings(prop)
    total = int(os.environ.get("VERIF_CASES") or p[tier])
    per = (total + WORKERS - 1) // WORKERS
    # the check has to answer in time on a slow or busy machine as well
    deadline = 420 if tier == "quick" else 400
    fuzz_time = int(os.environ.get("VERIF_FUZZTIME") or (0 if tier == "quick" else 240))
    for n in range(WORKERS):
        # rapid starts case i of a run with seed+i
        s = ((seed & 0xffffff) * 64 + n + 1) * 10**12 & MASK
        workers.append(Worker(exe, tmp, n, prop, s, per, known, deadline))
    failed, errors = None, []
    running = list(workers)
    hard = time.time() + deadline + 120
    while running and failed is None:
        time.sleep(0.02)
        for w in list(running):
            code = w.proc.poll()
            if code is None:
                continue
            running.remove(w)
            if code == 0:
                continue
            failed = verdict(prop, seed, exe, tmp, w, code, errors)
            if failed:
                break
        if time.time() > hard:
            errors.append("workers did not end")
            break
    for w in running:
        w.kill()

    fuzzed = None
    if fuzz_time and not failed and not errors:
        fuzzed, failed, more = fuzz(prop, seed, exe, tmp, p["race"], known, fuzz_time)
        errors += more

    stats = []
    for w in workers:
        try:
            stats.append(json.load(open(w.out)))
        except (OSError, ValueError):
            pass  # the worker was ended before it had written all of it
    cases = sum(s["cases"] for s in stats)
    hashes, classes, samples, found = set(), {}, [], {}
    for s in stats:
        hashes.update(s["hashes"] or [])
        for k, v in s["classes"].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in s["known"].items():
            found[k] = found.get(k, 0) + v
    for i in range(3):
        for s in stats:
            ss = s.get("samples") or []
            if len(ss) > i and len(samples) < 4:
                samples.append(ss[i])
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "nontrivial": sum(s["nontrivial"] for s in stats),
            "distinct_nontrivial": len(hashes),
            "rule": p["rule"] + " Distinct: cases whose written form differs (64 bit hash).",
            "samples": samples,
            "classes": dict(sorted(classes.items())),
            "known_findings_met": found,
            "asked_for": total,
            "workers": WORKERS,
        },
        "assumptions": p["assume"] or [],
        "wall_s": round(time.time() - start, 2),
        "violations": 1 if failed else 0,
    }
    if fuzzed is not None:
        evidence["coverage"]["coverage_guided"] = fuzzed
    if failed:
        evidence["coverage"]["violation"] = failed[1][:2000]
    if errors:
        evidence["coverage"]["errors"] = [e[:1000] for e in errors]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    if failed:
        print(failed[1])
        print("VIOLATION property=%s replay=%s" % (prop, failed[0]))
        return 1
    if errors:
        die("; ".join(errors)[:4000])
    if cases == 0 or len(hashes) < 2:
        die("nothing was explored")
    for key, text in known.items():
        if found.get(key):
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, cases, len(hashes), evidence["wall_s"]))
    return 0


def verdict(prop, seed, exe, tmp, w, code, errors):
    """What the end of a worker means: (replay file, message) for a violation,
    None for an error, which goes to errors."""
    text = w.text()
    if code == 10 and os.path.exists(w.replay):
        data = json.load(open(w.replay))
        return save_replay(prop, seed, data), data["message"]
    case = current_case(w.current)
    if code == 20 or case is None:
        errors.append("worker %d ended with %s: %s" % (w.n, code, text))
        return None
    # the process died in a case
    what = {11: "the case does not end", 12: "the case uses up the memory", 66: "data race"}.get(code, "the process died (%s)" % code)
    data = {"property": prop, "message": what + "\n" + text, "case": case}
    path = save_replay(prop, seed, data)
    if code == 66 or "fatal error: concurrent map" in text:
        return path, data["message"]
    rc, out = replay(exe, path, tmp)
    if rc == 0 or rc == 20 or rc is None or rc < 0:
        errors.append("%s, which did not happen again (%s): %s" % (what, rc, text))
        os.remove(path)
        return None
    return path, data["message"]


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:
        import traceback
        die("".join(traceback.format_exception(e)))
