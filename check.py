#!/usr/bin/env python3
"""Driver of the runtime monitors (see DESIGN.md).

  check.py C05 [--tier quick|thorough] [--seed N]   decide one property on /repo's current tree
  check.py --replay FILE                            run again what a VIOLATION line points to
  check.py --setup                                  build everything once

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: no verdict.
"""
import argparse
import fcntl
import glob
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from plan import P

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("IL2_REPO", "/repo")
MON = os.path.join(HERE, "mon")
TARGETS = os.path.join(HERE, "target")
CORES = max(2, min(8, os.cpu_count() or 4))
HOST = "x86_64-unknown-linux-gnu"

# build flavours: name -> (toolchain, cargo args, rustflags, directory of the binary)
SAN = ["--target", HOST, "--features", "plainalloc", "--profile", "checked"]
FLAVOURS = {
    "checked": ("stable-" + HOST, ["--profile", "checked"], None, "checked"),
    "bare": ("stable-" + HOST, ["--profile", "bare"], None, "bare"),
    "asan": ("nightly", SAN, "-Zsanitizer=address", HOST + "/checked"),
    "tsan": ("nightly", SAN + ["-Zbuild-std"], "-Zsanitizer=thread", HOST + "/checked"),
    "msan": ("nightly", SAN + ["-Zbuild-std"], "-Zsanitizer=memory -Zsanitizer-memory-track-origins", HOST + "/checked"),
}


def say(*a):
    print(*a, flush=True)


def env_for(toolchain, flags=None, target=None):
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(("CARGO", "RUST", "MIRI")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e["IL2_SRC"] = os.path.join(REPO, "src")
    if flags:
        e["RUSTFLAGS"] = flags
    if target:
        e["CARGO_TARGET_DIR"] = target
    return e


class NoVerdict(Exception):
    pass


class Build:
    """One flavour being built; several build at once, each in its own directory."""

    def __init__(self, flavour, work):
        self.flavour = flavour
        tc, args, flags, sub = FLAVOURS[flavour]
        self.dir = os.path.join(TARGETS, flavour)
        os.makedirs(self.dir, exist_ok=True)
        self.lock = open(os.path.join(self.dir, ".check-lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        # cargo goes by modification times; make it compile the current tree whatever they say
        for d in glob.glob(os.path.join(self.dir, "**", ".fingerprint", "il2*"), recursive=True):
            shutil.rmtree(d, ignore_errors=True)
        self.bin = os.path.join(self.dir, sub, "il2mon")
        self.out = os.path.join(work, "il2mon-" + flavour)
        self.log = os.path.join(work, "build-%s.log" % flavour)
        self.t0 = time.time()
        with open(self.log, "w") as f:
            self.p = subprocess.Popen(["cargo", "build", "--offline"] + args, cwd=MON, env=env_for(tc, flags, self.dir),
                                      stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)

    def wait(self):
        rc = self.p.wait()
        ok = rc == 0 and os.path.exists(self.bin)
        if ok:
            shutil.copy2(self.bin, self.out)
        fcntl.flock(self.lock, fcntl.LOCK_UN)
        self.lock.close()
        if not ok:
            with open(self.log) as f:
                say(f.read()[-4000:])
            raise NoVerdict("the %s build failed" % self.flavour)
        return self.out


def cpu_of(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read()
        v = s[s.rindex(")") + 2:].split()
        return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, ValueError, IndexError):
        return None


class Job:
    """One worker process over a range of cases."""
    seq = 0

    def __init__(self, work, flavour, binary, pid, seed, start, count, tier, cpu_limit, stall_limit, env=None, cmd=None):
        Job.seq += 1
        self.work, self.flavour, self.binary, self.pid = work, flavour, binary, pid
        self.seed, self.start, self.count, self.tier = seed, start, count, tier
        self.cpu_limit, self.stall_limit = cpu_limit, stall_limit
        self.extra_env, self.cmd = env, cmd
        base = os.path.join(work, "j%d" % Job.seq)
        self.out, self.progress, self.err = base + ".out", base + ".pos", base + ".err"
        self.hung = None

    def again(self, start, count):
        return Job(self.work, self.flavour, self.binary, self.pid, self.seed, start, count, self.tier,
                   self.cpu_limit * 2, self.stall_limit, self.extra_env, self.cmd)

    def launch(self):
        e = env_for("stable-" + HOST)
        if self.extra_env:
            e.update(self.extra_env)
        cmd = (self.cmd or [self.binary]) + [
            "--prop", self.pid, "--seed", str(self.seed), "--start", str(self.start), "--count", str(self.count),
            "--tier", self.tier, "--out", self.out, "--progress", self.progress]
        with open(self.err, "w") as f:
            self.p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e,
                                      cwd=self.work if not self.cmd else MON, start_new_session=True)
        self.t0 = time.time()
        self.at, self.cpu_at, self.wall_at = None, 0.0, self.t0

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def position(self):
        try:
            with open(self.progress, "rb") as f:
                b = f.read(8)
            return int.from_bytes(b, "little") if len(b) == 8 else None
        except OSError:
            return None

    def poll(self):
        """True once ended (or ended because it hung)."""
        if self.p.poll() is not None:
            return True
        now = time.time()
        pos = self.position()
        cpu = cpu_of(self.p.pid)
        if cpu is None:
            return False
        if pos != self.at:
            self.at, self.cpu_at, self.wall_at = pos, cpu, now
        elif cpu - self.cpu_at > self.cpu_limit:
            self.hung = "used %d s of CPU time on one case" % (cpu - self.cpu_at)
        elif now - self.wall_at > self.stall_limit and cpu - self.cpu_at < 5:
            self.hung = "made no progress for %d s" % (now - self.wall_at)
        if self.hung:
            self.kill()
            return True
        return False

    def text(self):
        try:
            with open(self.err, errors="replace") as f:
                return f.read()
        except OSError:
            return ""

    def result(self):
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            return None

    def hashes(self):
        try:
            with open(self.out + ".h", "rb") as f:
                return f.read()
        except OSError:
            return b""

    def clean(self):
        for x in (self.out, self.out + ".h", self.progress):
            try:
                os.unlink(x)
            except OSError:
                pass


CRASHES = {signal.SIGSEGV: "SIGSEGV", signal.SIGABRT: "SIGABRT", signal.SIGILL: "SIGILL", signal.SIGFPE: "SIGFPE",
           signal.SIGBUS: "SIGBUS", signal.SIGTRAP: "SIGTRAP", signal.SIGSYS: "SIGSYS"}
REPORT = 66  # exit code of a sanitizer that has something to report


def verdict(job, memory_only):
    """('ok'|'bad'|'hung'|'killed'|'error'|'aside', text) for an ended job.

    memory_only: only memory errors count (C31); what the embedded monitors conclude does not.
    """
    rc = job.p.returncode
    text = job.text()
    if job.hung:
        return ("aside" if memory_only else "hung"), job.hung
    san = [l for l in text.splitlines() if "ERROR: AddressSanitizer" in l or "ERROR: LeakSanitizer" in l
           or "WARNING: ThreadSanitizer" in l or "WARNING: MemorySanitizer" in l]
    if job.flavour == "miri":
        ub = [l for l in text.splitlines() if "Undefined Behavior" in l or "memory leaked" in l or "Data race" in l]
        if ub:
            return "bad", "Miri: " + ub[0].strip()
        if rc == 0:
            return "ok", ""
        if rc == 10 and not memory_only:
            return "bad", "case"
        return "aside", "Miri stopped (exit %s): %s" % (rc, text.strip().splitlines()[-1:] or "")
    if san:
        s = san[0].strip()
        if memory_only and ("stack-overflow" in s or "allocation-size-too-big" in s or "out of memory" in s
                            or "out-of-memory" in s or "ABRT" in s):
            return "aside", s
        return "bad", s
    if rc == 0:
        return "ok", ""
    if rc == 10:
        r = job.result()
        if r and r.get("fail"):
            return "bad", "case"
        return "error", "failed without saying where"
    if rc < 0:
        s = signal.Signals(-rc)
        if s in CRASHES:
            tail = " ".join(text.strip().splitlines()[-4:])[-300:]
            if memory_only and s == signal.SIGABRT and ("overflowed its stack" in text or "memory allocation of" in text
                                                        or "more memory than" in text or "panic" in text):
                return "aside", tail
            return "bad", "the process died of %s: %s" % (CRASHES[s], tail)
        if s == signal.SIGKILL:
            return "killed", "killed (out of memory?)"
    return "error", "exit code %s: %s" % (rc, text[-500:])


class Run:
    def __init__(self, pid, tier, seed, budget):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.plan = P[pid]
        self.t0 = time.time()
        self.budget = budget
        self.evals = 0
        self.hashes = set()
        self.capped = False
        self.counters = {}
        self.samples = []
        self.stages = {}
        self.asides = []
        self.found = None  # (what, replay)
        self.memory_only = pid == "C31"

    # -------------------------------------------------------------- results

    def take(self, job, stage):
        r = job.result()
        if not r:
            return
        s = self.stages.setdefault(stage, {"cases": 0, "evaluations": 0, "processes": 0})
        s["cases"] += r["done"]
        s["evaluations"] += r["evals"]
        s["processes"] += 1
        self.evals += r["evals"]
        for k, v in r["counters"].items():
            top = k.startswith(("deepest", "longest", "largest", "most ", "view nesting", "widest", "threads at once"))
            self.counters[k] = max(self.counters.get(k, 0), v) if top else self.counters.get(k, 0) + v
        if len(self.samples) < 8:
            self.samples += [x for x in r["samples"][:2]]
        h = job.hashes()
        if len(self.hashes) < 6_000_000:
            self.hashes.update(memoryview(h).cast("Q") if len(h) % 8 == 0 and h else ())
        else:
            self.capped = True
        job.clean()

    def report(self, job, start, count, what):
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s-%d-%d.json" % (self.pid, job.flavour, self.seed, start))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "flavour": job.flavour, "seed": job.seed, "start": start, "count": count,
                       "tier": job.tier, "prop": job.pid, "what": what, "log": job.text()[-20000:]}, f, indent=1)
        self.found = (what, path)

    # -------------------------------------------------------------- workers

    def pool(self, jobs, stage, width, until=None):
        """Runs jobs (an iterator) `width` at a time until done, the time is up or a violation is confirmed."""
        active = []
        it = iter(jobs)
        more = True
        retried = set()
        pending = []
        while True:
            while more and len(active) < width:
                if pending:
                    j = pending.pop()
                else:
                    if until and time.time() > until:
                        more = False
                        break
                    j = next(it, None)
                    if j is None:
                        more = False
                        break
                j.launch()
                active.append(j)
            if not more and pending and len(active) < 1:
                j = pending.pop()
                j.launch()
                active.append(j)
            if not active:
                return
            if time.time() - self.t0 > self.budget:
                for j in active:
                    j.kill()
                raise NoVerdict("out of time (%d s) in stage %s" % (self.budget, stage))
            time.sleep(0.02)
            for j in list(active):
                if not j.poll():
                    continue
                active.remove(j)
                v, text = verdict(j, self.memory_only)
                if v == "ok":
                    self.take(j, stage)
                elif v == "aside":
                    self.asides.append("%s case %s: %s" % (j.flavour, j.position(), text))
                    at = j.position()
                    s = self.stages.setdefault(stage, {"cases": 0, "evaluations": 0, "processes": 0})
                    s["set aside"] = s.get("set aside", 0) + 1
                    if at is not None and at + 1 < j.start + j.count and len(self.asides) < 40:
                        n = j.again(at + 1, j.start + j.count - at - 1)
                        n.cpu_limit = j.cpu_limit
                        pending.append(n)
                elif v == "killed" and (j.start, j.flavour) not in retried:
                    retried.add((j.start, j.flavour))
                    pending.append(j.again(j.start, j.count))
                elif v in ("killed", "error"):
                    for k in active:
                        k.kill()
                    raise NoVerdict("%s %s in stage %s" % (self.pid, text, stage))
                else:
                    for k in active:
                        k.kill()
                    self.confirm(j, v, text, stage)
                    return

    def confirm(self, j, v, text, stage):
        r = j.result()
        if text == "case" and r:
            at, what = r["fail"]["index"], r["fail"]["what"]
        else:
            at, what = j.position(), text
        self.take(j, stage)
        if at is None:
            if v == "hung":
                raise NoVerdict("a worker did not start: " + text)
            self.report(j, j.start, j.count, what)
            return
        # the same case alone
        k = j.again(at, 1)
        k.launch()
        while not k.poll():
            time.sleep(0.02)
            if time.time() - self.t0 > self.budget + 120:
                k.kill()
                break
        v2, t2 = verdict(k, self.memory_only)
        if v2 in ("bad", "hung"):
            r2 = k.result()
            self.report(k, at, 1, r2["fail"]["what"] if t2 == "case" and r2 else t2)
            return
        if v == "hung":
            raise NoVerdict("case %d %s, but not when run again" % (at, text))
        # it took the cases before it, or the schedule of that run
        self.report(j, j.start, at - j.start + 1, what + " (after the cases before it, or under that schedule only)")


def flavour_seed(seed, i):
    return seed * 1009 + i


def chunks(run, work, flavour, binary, idx, n, size, cpu_limit, env=None, pid=None, start=0):
    at = start
    while n is None or at < start + n:
        k = size if n is None else min(size, start + n - at)
        yield Job(work, flavour, binary, pid or run.pid, flavour_seed(run.seed, idx), at, k, run.tier, cpu_limit, 150, env)
        at += k


def both(a, b):
    """Alternates between two iterators."""
    its = [iter(a), iter(b)]
    while its:
        for i in list(its):
            x = next(i, None)
            if x is None:
                its.remove(i)
            else:
                yield x


SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=66:abort_on_error=0:detect_leaks=1:allocator_may_return_null=1:max_allocation_size_mb=3000:detect_stack_use_after_return=1:handle_abort=0:quarantine_size_mb=64",
    "LSAN_OPTIONS": "exitcode=66",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1",
    "MSAN_OPTIONS": "exitcode=66:halt_on_error=1",
}
# cheap monitors worth repeating under AddressSanitizer / MemorySanitizer: (property, cases)
SAN_PARTS = [("C01", 400), ("C04", 400), ("C05", 250), ("C08", 60), ("C12", 200), ("C13", 60), ("C14", 120), ("C15", 120),
             ("C16", 400), ("C17", 100), ("C18", 200), ("C19", 200), ("C20", 200), ("C21", 60), ("C22", 60), ("C23", 40),
             ("C24", 300), ("C25", 100), ("C26", 4), ("C27", 400), ("C28", 300), ("C29", 400), ("C32", 100), ("C09", 40)]


def san_jobs(run, work, flavour, binary, times, seed0):
    for t in range(times):
        for pid, n in SAN_PARTS:
            yield Job(work, flavour, binary, pid, flavour_seed(run.seed, seed0 + t), 1000 * t + 300, n, "quick", 400, 300, SAN_ENV)


def miri_jobs(run, work, count, start, per=1):
    e = env_for("nightly", None, os.path.join(TARGETS, "miri"))
    for i in range(count):
        j = Job(work, "miri", "", "C31", flavour_seed(run.seed, 50), start + i * per, per, "quick", 150, 300,
                dict(e, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-seed=%d" % (run.seed + i)),
                ["cargo", "miri", "run", "--offline", "-q", "--features", "plainalloc", "--"])
        yield j


def explore(run, work):
    plan = run.plan
    quick = run.tier == "quick"
    names = ["checked", "bare"]
    stages = plan["stages"]
    san = []
    if "asan" in stages:
        san.append("asan")
    if "tsan" in stages:
        san.append("tsan")
    if "asan" in stages and not quick:
        san.append("msan")
    builds = {n: Build(n, work) for n in names + san}
    bins = {n: builds[n].wait() for n in names}
    scale = float(os.environ.get("IL2_SCALE", "1"))
    n = max(8, int(plan["quick"] * scale))
    per = max(1, n // 12)
    cpu = 60
    a = chunks(run, work, "checked", bins["checked"], 0, n, per, cpu)
    b = chunks(run, work, "bare", bins["bare"], 1, n, per, cpu)
    run.pool(both(a, b), "builds with and without overflow checks", CORES)
    if run.found:
        return
    for s in san:
        binary = builds[s].wait()
        if s == "tsan":
            jobs = chunks(run, work, "tsan", binary, 2, 16 if quick else 400, 2 if quick else 5, 600, SAN_ENV)
            run.pool(jobs, "ThreadSanitizer", 4)
        else:
            jobs = san_jobs(run, work, s, binary, 1 if quick else 12, 10 if s == "asan" else 30)
            run.pool(jobs, {"asan": "AddressSanitizer and LeakSanitizer", "msan": "MemorySanitizer"}[s], CORES)
        if run.found:
            return
    if "miri" in stages:
        # the first one compiles
        run.pool(miri_jobs(run, work, 1, 0), "Miri", 1)
        if run.found:
            return
        run.pool(miri_jobs(run, work, 31 if quick else 500, 1), "Miri", CORES,
                 None if quick else run.t0 + run.budget * 0.55)
        if run.found:
            return
    if not quick:
        until = run.t0 + run.budget * 0.85
        a = chunks(run, work, "checked", bins["checked"], 3, None, max(1, n // 8), cpu * 2, start=1 << 20)
        b = chunks(run, work, "bare", bins["bare"], 4, None, max(1, n // 8), cpu * 2, start=1 << 20)
        run.pool(both(a, b), "further cases", CORES, until)


def known(pid):
    out = []
    try:
        with open(os.path.join(HERE, "known-findings.txt")) as f:
            for l in f:
                l = l.strip()
                if l.startswith("KNOWN-FINDING: property=%s " % pid):
                    out.append(l)
    except OSError:
        pass
    return out


def evidence(run, violations):
    need = {}
    try:
        with open(os.path.join(HERE, "need.json")) as f:
            need = json.load(f)
    except OSError:
        pass
    missing = [k for k in need.get(run.pid, []) if not run.counters.get(k)]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    d = {
        "property": run.pid,
        "tier": run.tier,
        "seed": run.seed,
        "level": run.plan["level"],
        "coverage": {
            "evaluations": run.evals,
            "distinct_nontrivial": len(run.hashes),
            "rule": run.plan["rule"],
            "samples": run.samples[:8] or ["(none: the first case already failed)"],
            "observed": dict(sorted(run.counters.items())),
            "stages": run.stages,
            "set_aside": run.asides[:20],
            "distinct_is_a_lower_bound": True,
        },
        "assumptions": [run.plan["note"]],
        "wall_s": round(time.time() - run.t0, 2),
        "violations": violations,
    }
    path = os.path.join(HERE, "evidence", run.pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)
    return missing


def decide(pid, tier, seed):
    budget = float(os.environ.get("IL2_BUDGET", "780" if tier == "quick" else "1500"))
    run = Run(pid, tier, seed, budget)
    os.makedirs(os.path.join(HERE, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(HERE, "work"))
    try:
        explore(run, work)
        missing = evidence(run, 1 if run.found else 0)
        if run.found:
            say("what: " + run.found[0][:2000])
            say("VIOLATION property=%s replay=%s" % (pid, run.found[1]))
            return 1
        if missing and float(os.environ.get("IL2_SCALE", "1")) >= 1:
            say("no verdict: never observed: " + ", ".join(missing))
            return 2
        for l in known(pid):
            say(l)
        say("%s held: %d evaluations, %d distinct, %.1f s" % (pid, run.evals, len(run.hashes), time.time() - run.t0))
        return 0
    except NoVerdict as e:
        evidence(run, 0)
        say("no verdict: %s" % e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    with open(path) as f:
        d = json.load(f)
    os.makedirs(os.path.join(HERE, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=os.path.join(HERE, "work"))
    try:
        run = Run(d["property"], d["tier"], 0, 3000)
        if d["flavour"] == "miri":
            j = next(miri_jobs(run, work, 1, d["start"]))
            j.seed, j.count = d["seed"], d["count"]
        else:
            b = Build(d["flavour"], work).wait()
            j = Job(work, d["flavour"], b, d["prop"], d["seed"], d["start"], d["count"], d["tier"], 300, 300, SAN_ENV)
        j.launch()
        while not j.poll():
            time.sleep(0.05)
        v, t = verdict(j, run.memory_only)
        r = j.result()
        say(j.text()[-3000:])
        say("%s: %s" % (v, r["fail"]["what"] if r and r.get("fail") else t))
        return 1 if v in ("bad", "hung") else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def setup():
    os.makedirs(os.path.join(HERE, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="setup-", dir=os.path.join(HERE, "work"))
    try:
        for group in (["checked", "bare", "asan"], ["tsan"]):
            for b in [Build(n, work) for n in group]:
                b.wait()
        run = Run("C31", "quick", 1, 900)
        run.pool(miri_jobs(run, work, 1, 0), "Miri", 1)
    except NoVerdict as e:
        # a check says so itself when it cannot build
        say("setup: %s" % e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=None)
    a.add_argument("--replay")
    a.add_argument("--setup", action="store_true")
    o = a.parse_args()
    if o.setup:
        return setup()
    if o.replay:
        return replay(o.replay)
    if o.property not in P:
        say("unknown property %s" % o.property)
        return 2
    seed = o.seed
    if seed is None:
        try:
            seed = int(os.environ.get("VERIF_SEED") or "1")
        except ValueError:
            seed = 1
    return decide(o.property, o.tier, seed & 0x7FFFFFFFFFFF)


if __name__ == "__main__":
    sys.exit(main())
