"""Builds the monitors from /repo's working tree, runs their workers, merges what they observed."""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = os.path.join(VERIF, "mon")
RACE = os.path.join(VERIF, "race")
EVID = os.path.join(VERIF, "evidence")
JOBS = max(2, os.cpu_count() or 2)
HIST = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C18", "C19", "C20"]
AFTER = ["C01", "C02", "C03", "C04", "C05", "C07", "C10"]
DEEP = ["C01", "C03", "C04", "C05", "C07", "C18", "C19", "C20"]
CONC = ["C12", "C13", "C14", "C15"]
KEEP = ["C02", "C03", "C05", "C10"]
CPU_HANG = 60        # seconds of processor time in one case: the library loops
STALL = 240          # seconds of wall clock in one case without using the processor: no answer


class Inconclusive(Exception):
    pass


class Violation(Exception):
    def __init__(self, message, replay, trace=()):
        super().__init__(message)
        self.message, self.replay, self.trace = message, replay, list(trace)
        self.judged = False     # an oracle of the property said so, not a crash or a hang


def say(*a):
    print(*a, flush=True)


def build(args, env=None, target=None, cwd=MON):
    """cargo build in mon/, race/ or stress/; a tree that does not compile gives no answer."""
    e = dict(os.environ)
    e.update(env or {})
    e.pop("RUSTFLAGS", None) if not (env and "RUSTFLAGS" in env) else None
    e["CARGO_NET_OFFLINE"] = "true"
    if target:
        e["CARGO_TARGET_DIR"] = target
    r = subprocess.run(args, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        say(r.stdout[-6000:])
        raise Inconclusive("the monitors do not build against /repo")


def cpu_of(pid):
    try:
        f = open(f"/proc/{pid}/stat").read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return None


def limit():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limit_as():
    limit()
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Worker:
    def __init__(self, cmd, work, n, env=None, cap_memory=True, cwd=None):
        self.cmd = cmd
        self.status = os.path.join(work, f"status{n}")
        self.out = os.path.join(work, f"out{n}.json")
        self.err = os.path.join(work, f"err{n}")
        e = dict(os.environ)
        e.update(env or {})
        self.p = subprocess.Popen(cmd + ["--status", self.status, "--out", self.out], cwd=cwd or MON, env=e,
                                  stdout=subprocess.DEVNULL, stderr=open(self.err, "w"),
                                  preexec_fn=limit_as if cap_memory else limit, start_new_session=True)
        self.last, self.cpu0, self.t0 = None, 0.0, time.time()
        self.hung = None

    def case(self):
        try:
            return open(self.status).read().strip()
        except OSError:
            return ""

    def watch(self):
        """a case which eats processor time for ever is a hang of the library"""
        c = self.case()
        cpu = cpu_of(self.p.pid)
        if cpu is None:
            return
        if c != self.last:
            self.last, self.cpu0, self.t0 = c, cpu, time.time()
            return
        if cpu - self.cpu0 > CPU_HANG:
            self.hung = "cpu"
        elif time.time() - self.t0 > STALL + CPU_HANG and cpu - self.cpu0 < 5:
            self.hung = "stall"
        if self.hung:
            self.kill()

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def stderr(self):
        try:
            return open(self.err, errors="replace").read()
        except OSError:
            return ""


def run_workers(cmds, env=None, cap_memory=True, overall=None, crash=None):
    """Run the commands in parallel; returns their JSON results. Raises on the first violation."""
    work = tempfile.mkdtemp(prefix="mon-")
    ws = []
    start = time.time()
    try:
        ws = [Worker(c, work, i, env[i] if isinstance(env, list) else env, cap_memory) for i, c in enumerate(cmds)]
        pending = list(ws)
        results, problems = [], []
        while pending:
            time.sleep(0.1)
            for w in list(pending):
                rc = w.p.poll()
                if rc is None:
                    w.watch()
                    if overall and time.time() - start > overall and not w.hung:
                        w.hung = "overall"
                        w.kill()
                    continue
                pending.remove(w)
                err = w.stderr()
                if w.hung == "cpu":
                    raise Violation(f"one case used more than {CPU_HANG} s of processor time: the library loops for ever",
                                    w.case() + "\n")
                if w.hung:
                    problems.append(f"worker made no progress ({w.hung}) in: {w.case()}")
                    continue
                if crash:
                    got = (crash[ws.index(w)] if isinstance(crash, list) else crash)(rc, err, w)
                    if got:
                        raise got
                if rc in (0, 1) and os.path.exists(w.out):
                    r = json.load(open(w.out))
                    v = r.get("violation")
                    if v:
                        x = Violation(f"{v['kind']}: {v['message']}", v["replay"], v["trace"])
                        x.judged = True
                        raise x
                    results.append(r)
                    continue
                if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGTRAP):
                    raise Violation(f"the process died with signal {-rc}: {err[-2500:].strip()}", w.case() + "\n")
                problems.append(f"worker ended with {rc} in {w.case()}: {err[-2500:]}")
        if problems:
            raise Inconclusive("\n".join(problems))
        return results
    finally:
        for w in ws:
            if w.p.poll() is None:
                w.kill()
                w.p.wait()
        shutil.rmtree(work, ignore_errors=True)


def merge(results):
    m = {"evaluations": 0, "operations": 0, "nontrivial_evaluations": 0, "counters": {}, "stopped_by_other_properties": {}}
    hashes, samples, rule = set(), [], ""
    for r in results:
        if r is None:
            continue
        m["evaluations"] += r["evaluations"]
        m["operations"] += r["ops"]
        m["nontrivial_evaluations"] += r["nontrivial"]
        hashes.update(r["hashes"])
        if r["sample"] and len(samples) < 2:
            samples.append(r["sample"])
        rule = r["rule"] or rule
        for k, v in r["counters"].items():
            m["counters"][k] = m["counters"].get(k, 0) + v
        for k, v in r["foreign"].items():
            o = m["stopped_by_other_properties"].get(k, [0, v[1]])
            m["stopped_by_other_properties"][k] = [o[0] + v[0], o[1]]
    m["distinct_nontrivial"] = len(hashes)
    m["rule"] = rule
    m["samples"] = samples
    return m


# ------------------------------------------------------------------ legs

RELEASE = os.path.join(MON, "target", "release", "mon")


def build_release():
    build(["cargo", "build", "--release", "--offline", "--bin", "mon"])
    return RELEASE


STRESS = os.path.join(VERIF, "stress")


def build_stress():
    """The real lock crate, ordinary threads."""
    build(["cargo", "build", "--release", "--offline"], cwd=STRESS)
    return os.path.join(STRESS, "target", "release", "stress")


def leg_stress(prop, seed, secs):
    exe = build_stress()
    # up to four threads each
    cmds = [[exe, "--prop", prop, "--seed", split_seed(seed, i, 9), "--secs", str(secs)] for i in range(max(2, JOBS // 2))]
    return merge(run_workers(cmds, overall=secs * 4 + 300))


def beside(leg, *a):
    """A leg which adds to a check that has its answer from another: only what its oracle judged counts."""
    try:
        return leg(*a)
    except Inconclusive as e:
        say(f"(no answer from a further leg: {str(e)[:300]})")
    except Violation as v:
        if v.judged:
            raise
        say(f"(a further leg ended early: {v.message[:300]})")
    return merge([])


def split_seed(seed, i, salt):
    x = (seed * 0x9E3779B97F4A7C15 + i * 0xBF58476D1CE4E5B9 + salt * 0x94D049BB133111EB) & (2 ** 63 - 1)
    return str(x ^ (x >> 29))


def leg_mode(mode, prop, seed, secs, salt=0):
    exe = build_release()
    cmds = [[exe, mode, "--prop", prop, "--seed", split_seed(seed, i, salt), "--secs", str(secs)] for i in range(JOBS)]
    return merge(run_workers(cmds, overall=secs * 4 + 300))


def leg_deep(prop, seed, secs):
    """long worlds; the query shapes are dealt out among the workers"""
    exe = build_release()
    cmds = [[exe, "deep", "--prop", prop, "--seed", str(seed), "--part", str(i), "--parts", str(JOBS), "--secs", str(secs)]
            for i in range(JOBS)]
    return merge(run_workers(cmds, overall=secs * 4 + 300))


MIRI_TARGET = os.path.join(MON, "target", "miri")
ASAN_TARGET = os.path.join(MON, "target", "asan")
SB = "-Zmiri-disable-isolation"
TB = "-Zmiri-disable-isolation -Zmiri-tree-borrows"
MIRI = ["cargo", "+nightly", "miri", "run", "--offline", "--quiet", "--bin", "mon", "--"]


def build_miri():
    build(MIRI + ["nop"], env={"MIRIFLAGS": SB}, target=MIRI_TARGET)


def miri_env(flags):
    return {"MIRIFLAGS": flags, "CARGO_TARGET_DIR": MIRI_TARGET, "CARGO_NET_OFFLINE": "true"}


def trim(err):
    """an interpreter's report without the build's warnings"""
    i = err.find("error: ")
    return err[i:i + 4000] if i >= 0 else err[-4000:]


def miri_crash(flags):
    def f(rc, err, w):
        if rc == 0:
            return None
        if any(x in err for x in ("error: Undefined Behavior", "error: memory leaked", "error: abnormal termination",
                                  "error: the evaluated program deadlocked")):
            return Violation(trim(err), f"@miri {flags}\n{w.case()}\n")
    return f


def leg_miri(cmds, flags, overall):
    """cmds and flags: one of each per worker"""
    build_miri()
    return merge(run_workers([MIRI + c for c in cmds], env=[miri_env(f) for f in flags], cap_memory=False, overall=overall,
                             crash=[miri_crash(f) for f in flags]))


def build_asan():
    build(["cargo", "+nightly", "build", "--release", "--offline", "--bin", "mon", "--target", "x86_64-unknown-linux-gnu"],
          env={"RUSTFLAGS": "-Zsanitizer=address --cfg asan"}, target=ASAN_TARGET)
    return os.path.join(ASAN_TARGET, "x86_64-unknown-linux-gnu", "release", "mon")


ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0"}


def asan_crash(rc, err, w):
    if "ERROR: AddressSanitizer" in err:
        return Violation(err[err.index("ERROR: AddressSanitizer"):][:4000], f"@asan\n{w.case()}\n")


def leg_asan(prop, seed, secs, salt):
    exe = build_asan()
    cmds = [[exe, "hist", "--prop", prop, "--seed", split_seed(seed, i, salt), "--secs", str(secs)] for i in range(JOBS)]
    return merge(run_workers(cmds, env=ASAN_ENV, cap_memory=False, overall=secs * 4 + 300, crash=asan_crash))


TSAN_TARGET = os.path.join(RACE, "target", "tsan")
TSAN_ENV = {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 history_size=4"}
# data races only: the aliasing rules are C16's
RACES = ("-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-stacked-borrows -Zmiri-disable-validation "
         "-Zmiri-preemption-rate={rate} -Zmiri-seed={seed}")


def build_tsan():
    """The real lock crate and the standard library are instrumented too, so every lock orders what it should."""
    build(["cargo", "+nightly", "build", "--release", "--offline", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"],
          env={"RUSTFLAGS": "-Zsanitizer=thread --cfg tsan_enabled"}, target=TSAN_TARGET, cwd=RACE)
    return os.path.join(TSAN_TARGET, "x86_64-unknown-linux-gnu", "release", "race")


def tsan_crash(rc, err, w):
    if "WARNING: ThreadSanitizer" in err or "CORRUPT VALUE" in err or "ERROR: ThreadSanitizer" in err:
        i = max(err.find("WARNING: ThreadSanitizer"), err.find("CORRUPT VALUE"), err.find("ERROR: ThreadSanitizer"))
        if "unexpected memory mapping" in err or "out of memory" in err.lower():
            return None
        return Violation(err[i:i + 4000], f"@tsan\n{w.case()}\n")


def leg_tsan(seed, secs):
    exe = build_tsan()
    # few threads each: all workers together keep the processors busy, and the kernel preempts inside critical sections
    cmds = [[exe, "--seed", split_seed(seed, i, 5), "--secs", str(secs), "--ops", str((8, 30, 30, 100)[i % 4])]
            for i in range(JOBS)]
    return merge(run_workers(cmds, env=TSAN_ENV, cap_memory=False, overall=secs * 3 + 300, crash=tsan_crash))


def known_lines(prop):
    """(probe, description) of the listed findings of a property"""
    out = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) probe=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3).strip()))
    return out


def known_findings(prop):
    """which of the listed findings the tree still has: each is a program of its own under the interpreter"""
    build_miri()
    ps = []
    for name, text in known_lines(prop):
        e = dict(os.environ)
        e.update(miri_env(SB))
        ps.append((name, text, subprocess.Popen(MIRI + ["probe", name], cwd=MON, env=e, stdout=subprocess.DEVNULL,
                                                stderr=subprocess.PIPE, text=True)))
    still = []
    for name, text, p in ps:
        err = p.communicate(timeout=300)[1]
        if "error: Undefined Behavior" in err:
            still.append(f"{text} (probe {name})")
    return still


def combine(**legs):
    """one coverage record for several legs of a check"""
    m = {"evaluations": 0, "operations": 0, "nontrivial_evaluations": 0, "distinct_nontrivial": 0, "counters": {},
         "stopped_by_other_properties": {}, "samples": [], "legs": {}}
    rules = []
    for name, c in legs.items():
        for k in ("evaluations", "operations", "nontrivial_evaluations", "distinct_nontrivial"):
            m[k] += c[k]
        for k, v in c["counters"].items():
            m["counters"][f"{name}: {k}"] = v
        for k, v in c["stopped_by_other_properties"].items():
            m["stopped_by_other_properties"][f"{name}: {k}"] = v
        m["samples"] += c["samples"][:1]
        m["legs"][name] = {k: c[k] for k in ("evaluations", "operations", "distinct_nontrivial")}
        rules.append(f"{name}: {c['rule']}")
    m["rule"] = "; ".join(rules)
    return m


def check(prop, tier, seed, secs):
    """returns (coverage, assumptions, known findings)"""
    quick = tier == "quick"
    if prop in HIST:
        legs = {"histories": leg_mode("hist", prop, seed, secs or (25 if quick else 600))}
        assume = ["histories through the public interface, one call at a time; the lock crate is replaced by a monitored one"]
        if prop in DEEP:
            legs["long worlds"] = leg_deep(prop, seed, secs or (7 if quick else 120))
        if prop in AFTER:
            t = secs or (8 if quick else 120)
            legs["programs"] = beside(leg_mode, "conc", prop, seed, t, 8)
            assume = ["histories through the public interface, one call at a time, and (fewer) concurrent programs looked at after "
                      "their end; the lock crate is replaced by a monitored one"]
            legs["stress"] = beside(leg_stress, prop, seed, secs or (8 if quick else 120))
            assume.append("in the stress legs the real lock crate and the processor's schedules, which differ from run to run")
        if prop in KEEP:
            t = secs or (5 if quick else 100)
            legs["kept"] = beside(leg_mode, "keep", prop, seed, t, 11)
            legs["kept, stress"] = beside(leg_stress, prop + "+", seed, t)
        return combine(**legs), assume, []
    if prop in CONC:
        s = secs or (40 if quick else 600)
        assume = ["the lock crate is replaced by a monitored one whose locks behave like parking_lot's (fair, readers wait behind "
                  "a waiting writer); threads switch only at lock operations and between calls"]
        if prop == "C12":
            legs = {"programs": leg_mode("conc", prop, seed, s // 2), "guards": leg_mode("guards", prop, seed, s // 4, 1),
                    "inside": leg_mode("occ", prop, seed, s // 4, 10), "inside, stress": beside(leg_stress, "C12+", seed, s // 4)}
        else:
            legs = {"programs": leg_mode("conc", prop, seed, s * 4 // 5), "kept": leg_mode("keep", prop, seed, s // 4, 11),
                    "kept, stress": beside(leg_stress, prop + "+", seed, s // 5)}
        legs["stress"] = beside(leg_stress, prop, seed, secs or (12 if quick else 200))
        assume.append("in the stress legs the real lock crate and the processor's schedules, which differ from run to run")
        return combine(**legs), assume, []
    if prop == "C16":
        legs = {"native": leg_mode("hist", prop, seed, secs or (15 if quick else 200), 2),
                "asan": leg_asan(prop, seed, secs or (20 if quick else 300), 3)}
        t = secs or (75 if quick else 900)
        # both aliasing models see every query shape
        half = max(2, JOBS // 2)
        cmds = [["sweep", "--seed", str(seed * 2 + m), "--part", str(i), "--parts", str(half), "--secs", str(t)]
                for m in (0, 1) for i in range(half)]
        legs["interpreter"] = leg_miri(cmds, [SB] * half + [TB] * half, t + 300)
        known = known_findings(prop)
        return combine(**legs), ["the lock crate is replaced by a monitored one (its own memory is not examined)",
                                 "unsafe functions are called within their documented conditions"], known
    if prop == "C17":
        t = secs or (60 if quick else 900)
        flags = [RACES.format(rate=("0.01", "0.05", "0.2", "0.5")[i % 4], seed=seed * 100 + i) for i in range(JOBS)]
        cmds = [["race", "--seed", split_seed(seed, i, 6), "--secs", str(t), "--ops", str((4, 8)[i // 4 % 2])] for i in range(JOBS)]
        legs = {"thread sanitizer": leg_tsan(seed, secs or (60 if quick else 900)), "interpreter": leg_miri(cmds, flags, t + 300)}
        known = known_findings(prop)
        return combine(**legs), ["races are reported for the accesses which executed, whatever order they happened to take, as long as "
                                 "no lock of the run orders them"], known
    raise Inconclusive(f"unknown property {prop}")


def main(argv):
    if len(argv) >= 2 and argv[0] == "replay":
        return replay(argv[1])
    if not argv:
        say(__doc__ or "check PROP [tier]")
        return 2
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    secs = int(os.environ.get("VERIF_SECS", "0") or 0)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration"}
    replay_file = os.path.join(EVID, f"{prop}.replay")
    try:
        cov, assume, known = check(prop, tier, seed, secs)
        if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
            raise Inconclusive(f"nothing was observed: {cov['evaluations']} evaluations, "
                               f"{cov['distinct_nontrivial']} distinct and non-trivial")
        code = 0
    except Violation as v:
        with open(replay_file, "w") as f:
            f.write(f"# {prop}: {v.message}\n".replace("\n", "\n# ").rstrip("# ") + "\n")
            for l in v.trace:
                f.write("# " + l.replace("\n", "\n# ") + "\n")
            f.write(v.replay)
        say(v.message[:3000])
        for l in v.trace[-60:]:
            say("   " + l)
        say(f"VIOLATION property={prop} replay={replay_file}")
        cov = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the violating case (the run stopped at it)",
               "samples": [v.trace[-60:] or [v.replay[:2000]]], "message": v.message[:3000]}
        assume, known, code = [], [], 1
    except Inconclusive as e:
        say(f"NO ANSWER property={prop}: {e}")
        return 2
    for k in known:
        say(f"KNOWN-FINDING: property={prop} {k}")
    ev.update({"coverage": cov, "assumptions": assume, "wall_s": round(time.time() - t0, 1), "violations": code})
    if known:
        ev["coverage"]["known_findings"] = known
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    if code == 0:
        say(f"{prop}: held on {cov['evaluations']} executions, {cov['distinct_nontrivial']} distinct and non-trivial, "
            f"{ev['wall_s']} s")
    return code


def replay(path):
    text = open(path).read()
    body = [l for l in text.splitlines() if l and not l.startswith("#")]
    if body and body[0].startswith("@miri"):
        build_miri()
        e = dict(os.environ)
        e.update(miri_env(body[0][5:].strip()))
        return subprocess.run(MIRI + ["replay", os.path.abspath(path)], cwd=MON, env=e).returncode
    if body and body[0].startswith("@asan"):
        e = dict(os.environ)
        e.update(ASAN_ENV)
        return subprocess.run([build_asan(), "replay", os.path.abspath(path)], cwd=MON, env=e).returncode
    if body and body[0].startswith("@tsan"):
        e = dict(os.environ)
        e.update(TSAN_ENV)
        _, case, ops = body[1].split()
        return subprocess.run([build_tsan(), "--case", case, "--ops", ops, "--times", "300", "--secs", "120"], env=e).returncode
    if body and body[0].startswith("@stress"):
        _, prop, case = body[1].split()
        return subprocess.run([build_stress(), "--prop", prop, "--case", case]).returncode
    if body and body[0].split()[0] in ("hist", "conc", "guards", "sweep", "rawhist", "deep", "occ", "keep"):
        exe = build_release()
        return subprocess.run([exe, "replay", path], cwd=MON).returncode
    if body and body[0].startswith("run "):
        return subprocess.run(["bash", "-c", body[0][4:]], cwd=MON).returncode
    say("nothing to replay in", path)
    return 2
