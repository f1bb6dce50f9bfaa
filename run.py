#!/usr/bin/env python3
"""Driver of the deterministic simulator.

  run.py check <property> [--thorough]   decide a property: exit 0 held, 1 VIOLATION, 2 error
  run.py replay <file> [--trace]         re-execute a replay file: exit 1 if it still violates, 0 if clean
  run.py setup                           build everything once
  run.py determinism [seeds]             run batches twice and in other worker counts, compare event logs
"""
import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
WORKERS = max(2, min(8, os.cpu_count() or 8))
PLAN_MAX = 1 << 20
PROGRESS_HEAD = 5 * 8

WRAPS = "malloc calloc realloc free vsnprintf snprintf vsprintf __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort pthread_mutex_lock".split()

CONFIGS = {
    # exception catching on, AddressSanitizer + UBSan
    "A": dict(defs=["-DCOIL_CONFIG_CATCH_EXCEPTIONS=1"], tsan=False, env=dict()),
    # exception catching off, the library's own assertions on
    "B": dict(defs=["-DCOIL_CONFIG_CATCH_EXCEPTIONS=0", "-DCOIL_CONFIG_ENABLE_ASSERTS=1"], tsan=False, env=dict()),
    # ThreadSanitizer
    "T": dict(defs=["-DCOIL_CONFIG_CATCH_EXCEPTIONS=1"], tsan=True, env=dict()),
}

# number of base plans per configuration in the quick tier; each base plan is executed with further
# schedules and fault placements (see mixFor in sim/main.cpp)
QUICK = {
    "C01": {"A": 4000, "B": 1200, "T": 2400},
    "C02": {"A": 9000, "B": 4000},
    "C03": {"A": 6000, "B": 2500},
    "C04": {"A": 5000, "B": 2000},
    "C05": {"A": 4000, "B": 1800},
    "C06": {"A": 5000, "B": 5000},
    "C07": {"A": 6000, "B": 2500},
    "C08": {"A": 7000, "B": 3000},
    "C09": {"A": 16000, "B": 6000},
    "C10": {"A": 14000, "B": 5000},
    "C11": {"A": 6000, "B": 2500},
    "C12": {"A": 50000, "B": 30000},
    "C13": {"A": 40000, "B": 20000},
    "C14": {"A": 12000, "B": 6000},
    "C15": {"A": 60000, "B": 30000},
    "C16": {"A": 5000, "B": 2000},
    "C17": {"A": 3000, "B": 1200},
}
# base plans which start in a process in which the library hasn't been used yet
QUICK_COLD = {"C01": 960}
QUICK_COLD_OTHER = 64
THOROUGH_SCALE = 15
QUICK_WALL = 420  # seconds, safety net only
THOROUGH_WALL = 3 * 3600

ASAN_OPTIONS = "detect_leaks=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:handle_abort=0:symbolize=1"
TSAN_OPTIONS = "exitcode=97:halt_on_error=1:report_signal_unsafe=0"
UBSAN_OPTIONS = "print_stacktrace=0"
HANG_SECONDS = int(os.environ.get("SIM_HANG", "60"))


WORLD2 = ("C12", "C13", "C14", "C15")


def configs_of(prop):
    """{"A1": base plans, ...}: configuration letter and world (1: interpreters, 2: containers)"""
    return {c + ("2" if prop in WORLD2 else "1"): n for c, n in QUICK[prop].items()}


ALL_CONFIGS = sorted({c for p in QUICK for c in configs_of(p)})


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------------------------------ building
def repo_files():
    src = sorted(glob.glob(os.path.join(REPO, "src", "*.cpp")))
    inc = sorted(f for d, _, fs in os.walk(os.path.join(REPO, "include")) for f in (os.path.join(d, x) for x in fs))
    inc += sorted(glob.glob(os.path.join(REPO, "src", "*.h")))
    return src, inc


def content_hash(files, extra):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    h.update(extra.encode())
    return h.hexdigest()[:24]


def build_text():
    """this file's text about building, a part of the cache key"""
    t = open(os.path.abspath(__file__)).read()
    return t[t.index("# " + "-" * 90 + " building"):t.index("# " + "-" * 90 + " running")]


def compile_plan(cfg, compiler):
    c, world = CONFIGS[cfg[0]], int(cfg[1])
    src, _ = repo_files()
    common = ["-std=c++17", "-O1", "-g", "-fno-omit-frame-pointer", "-w", "-include", os.path.join(SIM, "pre.h"), "-I" + os.path.join(REPO, "include")] + c["defs"]
    init = ["-ftrivial-auto-var-init=pattern"]
    if compiler == "clang++":
        san = ["-fsanitize=thread"] if c["tsan"] else [
            "-fsanitize=address,bool,bounds,builtin,enum,null,pointer-overflow,return,returns-nonnull-attribute,shift,signed-integer-overflow,unreachable,vla-bound,vptr",
            "-fno-sanitize-recover=all"]
        cov = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
    else:
        san = ["-fsanitize=thread"] if c["tsan"] else [
            "-fsanitize=address,bool,bounds,builtin,enum,null,pointer-overflow,return,returns-nonnull-attribute,shift,signed-integer-overflow,unreachable,vla-bound,vptr",
            "-fno-sanitize-recover=all"]
        cov = ["-fsanitize-coverage=trace-pc"]
    jobs = []
    for f in src:
        jobs.append((f, "lib_" + os.path.basename(f)[:-4] + ".o", common + san + cov + init))
    # these instantiate the library's templates
    inst, harness = (("cmds_d", "cmds_a", "cmds_b", "cmds_c"), ("world1", "gen1", "model", "main")) if world == 1 else (("world2_seq", "world2_map", "world2_val", "world2"), ("gen2", "model", "main"))
    common = common + ["-DSIM_ONLY=%d" % world]
    for n in inst:
        jobs.append((os.path.join(SIM, n + ".cpp"), "i_" + n + ".o", common + san + cov + init))
    # instrumented as well: inline code of the library ends up here, too
    hs = ["-DSIM_TSAN"] + san if c["tsan"] else san
    for n in harness:
        jobs.append((os.path.join(SIM, n + ".cpp"), "h_" + n + ".o", common + hs))
    jobs.append((os.path.join(SIM, "core.cpp"), "h_core.o", common + (["-DSIM_TSAN"] if c["tsan"] else [])))
    order = {"h_world1.o": 0, "i_world2_val.o": 0, "i_world2_seq.o": 1, "i_world2_map.o": 1, "h_gen1.o": 1, "i_cmds_d.o": 2, "i_cmds_a.o": 3, "i_cmds_b.o": 4, "i_cmds_c.o": 5, "h_main.o": 7}
    jobs.sort(key=lambda j: order.get(j[1], 50))
    wraps = ["-Wl,--wrap=" + w for w in WRAPS]
    link = [compiler]
    libs = ["-lpthread"]
    if c["tsan"] and compiler == "clang++":
        link = ["clang"]  # without the runtime's own operator new
        libs = ["-lstdc++", "-lm", "-lpthread"]
    return jobs, link + san, libs + wraps


def build_all(cfgs, quiet=False):
    """builds the simulator of several configurations; returns {cfg: binary}; raises on failure"""
    t0 = time.time()
    src, inc = repo_files()
    own = sorted(glob.glob(os.path.join(SIM, "*.cpp")) + glob.glob(os.path.join(SIM, "*.h")))
    out, errors, todo = {}, {}, []
    os.makedirs(BUILD, exist_ok=True)
    for c in cfgs:
        key = content_hash(src + inc + own, json.dumps(CONFIGS[c[0]], sort_keys=True) + build_text())
        d = os.path.join(BUILD, c + "-" + key)
        binp = os.path.join(d, "sim")
        out[c] = binp
        if not os.path.exists(binp):
            todo.append((c, d, binp))
    # keep disk use bounded
    have = sorted(glob.glob(os.path.join(BUILD, "??-*")), key=os.path.getmtime)
    for d in have[:-6]:
        if d not in [os.path.dirname(b) for b in out.values()]:
            shutil.rmtree(d, ignore_errors=True)
    if not todo:
        return out, {c: "clang++" for c in cfgs}, time.time() - t0

    used = {}
    with concurrent.futures.ThreadPoolExecutor(max_workers=max(8, os.cpu_count() or 8)) as ex:
        def compile_one(flags, compiler, f, o):
            r = subprocess.run([compiler] + flags + ["-c", f, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            return r.returncode, f, r.stdout

        def attempt(items, compiler):
            futs = {}
            allj = []
            for c, d, binp in items:
                tmp = d + ".tmp%d" % os.getpid()
                shutil.rmtree(tmp, ignore_errors=True)
                os.makedirs(tmp)
                jobs, link, libs = compile_plan(c, compiler)
                allj.append((c, d, binp, tmp, jobs, link, libs))
            n = max(len(a[4]) for a in allj)
            for i in range(n):
                for c, d, binp, tmp, jobs, link, libs in allj:
                    if i < len(jobs):
                        f, o, flags = jobs[i]
                        futs.setdefault(c, []).append(ex.submit(compile_one, flags, compiler, f, os.path.join(tmp, o)))
            failed = []
            for c, d, binp, tmp, jobs, link, libs in allj:
                bad = [r for r in (f.result() for f in futs[c]) if r[0] != 0]
                if not bad:
                    # of several copies of an inline function the linker takes the first: one with the simulator's switch points
                    objs = sorted((j[1] for j in jobs), key=lambda o: (o.startswith("h_"), o))
                    r = subprocess.run(link + [os.path.join(tmp, o) for o in objs] + ["-o", os.path.join(tmp, "sim")] + libs,
                                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
                    if r.returncode != 0:
                        bad = [(r.returncode, "link", r.stdout)]
                if bad:
                    errors[c] = "\n".join("%s:\n%s" % (b[1], b[2][:3000]) for b in bad[:2])
                    shutil.rmtree(tmp, ignore_errors=True)
                    failed.append((c, d, binp))
                else:
                    for o in glob.glob(os.path.join(tmp, "*.o")):
                        os.unlink(o)
                    shutil.rmtree(d, ignore_errors=True)
                    os.rename(tmp, d)
                    used[c] = compiler
            return failed

        rest = attempt(todo, "clang++")
        if rest:
            log("clang++ doesn't build it, trying g++:\n" + "\n".join(errors.get(c, "") for c, _, _ in rest)[:2000])
            rest = attempt(rest, "g++")
        if rest:
            raise RuntimeError("the simulator doesn't build:\n" + "\n".join(errors[c] for c, _, _ in rest))
    return out, used, time.time() - t0


# ------------------------------------------------------------------------------------------ running
def have_setarch():
    try:
        return subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
    except OSError:
        return False


SETARCH = None


def cmdline(binary, args):
    global SETARCH
    if SETARCH is None:
        SETARCH = ["setarch", "-R"] if have_setarch() else []
    return SETARCH + [binary] + args


def environment():
    keep = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR")}
    keep.update(ASAN_OPTIONS=ASAN_OPTIONS, TSAN_OPTIONS=TSAN_OPTIONS, UBSAN_OPTIONS=UBSAN_OPTIONS, LC_ALL="C")
    return keep


def classify(rc, text):
    """class of a failure of the simulator process, None if it isn't one"""
    if rc == 0:
        return None
    m = re.search(r"SIMVIOLATION (\S+) \|", text)
    if rc == 99 and m:
        return m.group(1)
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        return "asan:" + m.group(1)
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", text)
    if m:
        return "tsan:" + m.group(1).strip().replace(" ", "-")
    m = re.search(r"runtime error: (.*)", text)
    if m:
        return "ubsan:" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|'[^']*'|\d+", "", m.group(1).lower())).strip("-")[:60]
    m = re.search(r"Assertion `(.*)' failed", text)
    if m:
        return "assert:" + re.sub(r"\s+", "_", m.group(1))[:80]
    if "terminate called" in text:
        return "terminate"
    m = re.search(r"ThreadSanitizer:DEADLYSIGNAL|AddressSanitizer:DEADLYSIGNAL", text)
    if m:
        return "signal"
    if rc < 0:
        return "signal:%d" % -rc
    if rc >= 128:
        return "signal:%d" % (rc - 128)
    return "exit:%d" % rc


# endings that say something about the simulator or the machine, not about the library
def is_internal(cls):
    return cls in ("exit:2", "exit:1", "exit:127", "exit:126", "signal:9", "signal:15", "exit:66") or cls.startswith("harness")


def violation_line(text):
    m = re.search(r"SIMVIOLATION .*", text)
    if m:
        return m.group(0)
    for pat in (r"ERROR: AddressSanitizer.*", r"WARNING: ThreadSanitizer.*", r".*runtime error: .*", r".*Assertion .*", r"terminate called.*"):
        m = re.search(pat, text)
        if m:
            return m.group(0)
    return text.strip().split("\n")[-1][:300] if text.strip() else ""


def run_plan(binary, plan, tmpdir, extra=(), timeout=HANG_SECONDS):
    f = os.path.join(tmpdir, "plan.%d.%d" % (os.getpid(), run_plan.n))
    run_plan.n += 1
    with open(f, "w") as fh:
        fh.write(plan)
    try:
        p = subprocess.run(cmdline(binary, ["replay", f] + list(extra)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=environment(), timeout=timeout)
        return p.returncode, p.stdout.decode("latin-1")
    except subprocess.TimeoutExpired as e:
        return 124, "SIMHANG " + (e.stdout or b"").decode("latin-1")
    finally:
        os.unlink(f)


run_plan.n = 0


def outcome(binary, plan, tmpdir):
    rc, text = run_plan(binary, plan, tmpdir)
    cls = "hang" if rc == 124 else classify(rc, text)
    m = re.search(r"hash=([0-9a-f]+)", text)
    return cls, (m.group(1) if m else ""), text


def read_progress(path):
    with open(path, "rb") as f:
        head = f.read(PROGRESS_HEAD)
        if len(head) < PROGRESS_HEAD:
            return None
        magic, run, variant, completed, n = struct.unpack("<5Q", head)
        f.seek(PROGRESS_HEAD + 2048)
        plan = f.read(min(n, PLAN_MAX)).decode("latin-1")
    return dict(run=run, variant=variant, completed=completed, plan=plan)


class Worker:
    def __init__(self, cfg, binary, prop, seed, w, stride, to, tier, deadline, tmp, tag="", hashes=True, start=None, cold=0):
        self.cfg, self.binary, self.w = cfg, binary, w
        self.base = os.path.join(tmp, "%s.%d%s" % (cfg, w, tag))
        self.progress = self.base + ".progress"
        self.args = ["run", "--prop=" + prop, "--seed=%d" % seed, "--from=%d" % (w if start is None else start), "--to=%d" % to, "--stride=%d" % stride,
                     "--deadline=%d" % deadline, "--progress=" + self.progress, "--keys=" + self.base + ".keys"]
        if cold:
            self.args.append("--cold=%d" % cold)
        if hashes:
            self.args.append("--hashes=" + self.base + ".hashes")
        if tier == "thorough":
            self.args.append("--thorough")
        self.out = open(self.base + ".out", "wb")
        self.p = subprocess.Popen(cmdline(binary, self.args), stdout=self.out, stderr=subprocess.STDOUT, env=environment(), start_new_session=True)
        self.last, self.lastAt, self.hang = None, time.time(), False

    def poll(self):
        rc = self.p.poll()
        if rc is not None:
            return rc
        try:
            pr = read_progress(self.progress)
            cur = (pr["run"], pr["variant"], pr["completed"]) if pr else None
        except OSError:
            cur = None
        if cur != self.last:
            self.last, self.lastAt = cur, time.time()
        elif time.time() - self.lastAt > HANG_SECONDS:
            self.hang = True
            self.kill()
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def text(self):
        with open(self.base + ".out", "rb") as f:
            return f.read().decode("latin-1")


def merge(into, stats):
    for k, v in stats.items():
        if isinstance(v, dict):
            merge(into.setdefault(k, {}), v)
        elif k in ("steps_max_run", "edges"):
            into[k] = max(into.get(k, 0), v)
        else:
            into[k] = into.get(k, 0) + v
    return into


def run_batch(items, tmp):
    """runs the workers, at most WORKERS at a time; returns (finished workers, failing worker or None)"""
    pending = list(items)
    running, done, failed = [], [], []
    while pending or running:
        while pending and len(running) < WORKERS and not failed:
            running.append(Worker(**pending.pop(0), tmp=tmp))
        if failed:
            pending = []
        time.sleep(0.02)
        for w in list(running):
            rc = w.poll()
            if rc is None:
                continue
            running.remove(w)
            w.out.close()
            w.rc = rc
            if rc == 0:
                done.append(w)
            else:
                failed.append(w)
        if failed:
            # the others are of no use any more
            for w in running:
                w.kill()
                w.p.wait()
                w.out.close()
            running = []
    return done, failed


# ------------------------------------------------------------------------------------------ minimising
def minimise(binary, plan, cls, tmp, budget):
    t0 = time.time()
    lines = [l for l in plan.split("\n") if l.strip()]
    head = [l for l in lines if l.startswith("cfg")]
    body = [l for l in lines if not l.startswith("cfg")]
    tries = [0]

    def fails(b):
        tries[0] += 1
        c, _, _ = outcome(binary, "\n".join(head + b) + "\n", tmp)
        return c == cls

    with concurrent.futures.ThreadPoolExecutor(max_workers=WORKERS) as ex:
        n = 2
        while len(body) >= 1 and time.time() - t0 < budget:
            size = max(1, (len(body) + n - 1) // n)
            chunks = [body[i:i + size] for i in range(0, len(body), size)]
            cands = [[l for j, c in enumerate(chunks) if j != i for l in c] for i in range(len(chunks))]
            hit = None
            for g in range(0, len(cands), WORKERS):
                group = cands[g:g + WORKERS]
                res = list(ex.map(fails, group))
                for cand, ok in zip(group, res):
                    if ok:
                        hit = cand
                        break
                if hit is not None or time.time() - t0 > budget:
                    break
            if hit is not None:
                body = hit
                n = max(n - 1, 2)
            elif size == 1:
                break
            else:
                n = min(len(body), n * 2)
        # simpler arguments: shorter words
        changed = True
        while changed and time.time() - t0 < budget:
            changed = False
            for i, l in enumerate(body):
                w = l.split()
                if w[0] not in "OS" or len(w) < 5:
                    continue
                cands = []
                for k in range(4, len(w)):
                    if len(w[k]) > 3 and not re.search("[%=]", w[k]):
                        cands.append(body[:i] + [" ".join(w[:k] + [w[k][:len(w[k]) // 2]] + w[k + 1:])] + body[i + 1:])
                if not cands:
                    continue
                for cand, ok in zip(cands, ex.map(fails, cands)):
                    if ok:
                        body = cand
                        changed = True
                        break
                if time.time() - t0 > budget:
                    break
    return "\n".join(head + body) + "\n", tries[0]


# ------------------------------------------------------------------------------------------ known findings
def known_findings(prop):
    r = []
    try:
        for l in open(os.path.join(VERIF, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=(.*?) :: (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append(dict(cls=m.group(2), match=m.group(3), text=m.group(4)))
    except OSError:
        pass
    return r


# ------------------------------------------------------------------------------------------ check
FAULTS = {
    "allocation failure": lambda s, c: s["alloc_faults"],
    "formatting call failure": lambda s, c: s["format_faults"] + c.get("format_failure_real", 0),
    "preemption of a simulated thread": lambda s, c: s["preemptions"],
    "switch at a waiting point": lambda s, c: s["coop_switches"],
    "exception thrown by user code": lambda s, c: c.get("throws", 0),
    "registry changed during an execution": lambda s, c: c.get("registry_change_in_flight", 0),
    "parser replaced during an execution": lambda s, c: c.get("lexer_change_in_flight", 0),
    "caller's buffer scrambled and freed": lambda s, c: c.get("recycled", 0),
    "re-run in another environment (heap contents, errno)": lambda s, c: c.get("env_divergent_runs", 0),
}


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    scale = THOROUGH_SCALE if tier == "thorough" else 1
    scale *= float(os.environ.get("SIM_SCALE", "1"))
    wall = THOROUGH_WALL if tier == "thorough" else QUICK_WALL
    plan = configs_of(prop)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    try:
        bins, used, tbuild = build_all(sorted(plan))
    except RuntimeError as e:
        log(str(e))
        return 2
    log("%s: built %s in %.1f s" % (prop, ",".join(sorted(plan)), tbuild))
    tmp = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        return check_in(prop, tier, seed, scale, wall, plan, bins, tmp, t0, tbuild, used)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report_violation(prop, tier, seed, w, tmp):
    """a worker failed: reproduce in fresh processes, minimise, write the replay file; returns exit code"""
    text = w.text()
    cls = "hang" if w.hang else classify(w.rc, text)
    if is_internal(cls) and not w.hang:
        log("simulator process failed (%s):\n%s" % (cls, text[-3000:]))
        return None
    pr = read_progress(w.progress)
    plan = pr["plan"]
    log("%s: config %s, seed %d, plan %d variant %d: %s\n  %s" % (prop, w.cfg, seed, pr["run"], pr["variant"], cls, violation_line(text)))
    os.makedirs(REPLAYS, exist_ok=True)
    a = outcome(w.binary, plan, tmp)
    b = outcome(w.binary, plan, tmp)
    head = ["# property=%s config=%s seed=%d index=%d variant=%d" % (prop, w.cfg, seed, pr["run"], pr["variant"])]
    if a[0] is not None and a[0] == b[0] and a[1] == b[1] and not is_internal(a[0]):
        cls = a[0]
        mini, tries = minimise(w.binary, plan, cls, tmp, 25 if tier == "quick" else 180)
        c1, h1, t1 = outcome(w.binary, mini, tmp)
        c2, h2, _ = outcome(w.binary, mini, tmp)
        if c1 != cls or c2 != cls or h1 != h2:
            mini, t1 = plan, a[2]
        body = mini
        n = len([l for l in mini.split("\n") if l.strip() and not l.startswith("cfg")])
        head += ["# class=%s" % cls, "# %s" % violation_line(t1), "# minimised from %d to %d lines with %d executions" % (len(plan.strip().split("\n")) - 1, n, tries)]
        faults = sorted({l[:3].strip() for l in mini.split("\n") if l[:2] in ("F ", "E ", "Y ")})
        head += ["# needs: %s" % (", ".join({"F a": "an allocation failure", "F f": "a formatting failure"}.get(x, "an interleaving") for x in faults) or "no injected fault beyond the history itself")]
        detail = t1
    else:
        # it depends on what the process did before: replay the whole batch of this worker
        if re.search(r"^cfg .*\bcold=1", plan, re.M):
            log("%s: the failure doesn't reproduce (%s, %s)" % (prop, a[0], b[0]))
            log(text[-3000:])
            return None
        arg = [x for x in w.args if not x.startswith(("--progress", "--keys", "--hashes", "--to", "--deadline", "--cold"))] + ["--to=%d" % (pr["run"] + 1), "--deadline=100000"]

        def batch(args):
            try:
                p = subprocess.run(cmdline(w.binary, args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=environment(), timeout=600)
            except subprocess.TimeoutExpired:
                return "hang", "", ""
            t = p.stdout.decode("latin-1")
            m = re.search(r"hash=([0-9a-f]+)", t)
            return classify(p.returncode, t), m.group(1) if m else "", t
        r1, r2 = batch(arg), batch(arg)
        if r1[0] is None or r1[0] != r2[0] or r1[1] != r2[1] or is_internal(r1[0]):
            log("%s: the failure doesn't reproduce in a fresh process (%s, %s; batch %s, %s)" % (prop, a[0], b[0], r1[0], r2[0]))
            log(text[-3000:])
            return None
        # shortest history: start later
        start, stride = pr["run"] % WORKERS, WORKERS
        m = re.search(r"--from=(\d+)", " ".join(arg))
        lo = int(m.group(1))
        m = re.search(r"--stride=(\d+)", " ".join(arg))
        stride = int(m.group(1))
        for back in (0, 1, 4, 16, 64, 256):
            f = pr["run"] - back * stride
            if f < lo:
                break
            cand = [x if not x.startswith("--from=") else "--from=%d" % f for x in arg]
            r3 = batch(cand)
            if r3[0] == r1[0]:
                arg, r1 = cand, r3
                break
        cls = r1[0]
        body = "batch " + " ".join(arg) + "\n"
        head += ["# class=%s" % cls, "# %s" % violation_line(r1[2]), "# needs a history of earlier runs in the same process"]
        detail = r1[2]
    line = violation_line(detail)
    for k in known_findings(prop):
        if k["cls"] == cls and re.search(k["match"], line):
            log("known finding: " + k["text"])
            return 0
    name = "%s-%s-%s.replay" % (prop, w.cfg, hashlib.sha256(body.encode()).hexdigest()[:12])
    path = os.path.join(REPLAYS, name)
    with open(path, "w") as f:
        f.write("\n".join(head) + "\n" + body)
    log("\n".join(head[1:]))
    for l in detail.split("\n"):
        if re.match(r"\s+#\d+ .*(/src/|/include/coil)", l):
            log(l.rstrip())
    print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
    return 1


def check_in(prop, tier, seed, scale, wall, plan, bins, tmp, t0, tbuild, used):
    total = sum(plan.values())
    items = []
    ncfg = {}
    cold = 0 if prop in WORLD2 else max(WORKERS, int(QUICK_COLD.get(prop, QUICK_COLD_OTHER) * scale))
    for cfg in sorted(plan):
        n = max(WORKERS, int(plan[cfg] * scale))
        ncfg[cfg] = n
        dl = max(30, int(wall * plan[cfg] / total))
        for w in range(WORKERS):
            items.append(dict(cfg=cfg, binary=bins[cfg], prop=prop, seed=seed, w=w, stride=WORKERS, to=n, tier=tier, deadline=dl, cold=cold))
    t1 = time.time()
    done, failed = run_batch(items, tmp)
    twork = time.time() - t1
    rc = 0
    if failed:
        rc = 2
        for w in failed:
            r = report_violation(prop, tier, seed, w, tmp)
            if r == 1:
                rc = 1
                break
            if r == 0 and rc != 1:
                rc = 0
    stats, percfg, distinct = {}, {}, set()
    for w in done:
        m = re.search(r"SIMSTATS (\{.*\})", w.text())
        s = json.loads(m.group(1)) if m else {}
        merge(stats, s)
        merge(percfg.setdefault(w.cfg, {}), s)
        try:
            with open(w.base + ".keys", "rb") as f:
                b = f.read()
            distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
        except OSError:
            pass

    # determinism: the same indexes, in other processes and another order of workers, must give the same event logs
    compared = 0
    if rc == 0 and not failed:
        t2 = time.time()
        again = []
        for cfg in sorted(plan):
            k = 16 if tier == "quick" else 64
            for i in range(4):
                again.append(dict(cfg=cfg, binary=bins[cfg], prop=prop, seed=seed, w=i, stride=4, to=min(ncfg[cfg], k), tier=tier, deadline=600, tag="d", cold=min(cold, 8)))
        d2, f2 = run_batch(again, tmp)
        first, second = {}, {}
        for ws, dst in ((done, first), (d2, second)):
            for w in ws:
                for l in open(w.base + ".hashes"):
                    a = l.split()
                    dst[(w.cfg, a[0], a[1])] = a[2:]
        for k, v in second.items():
            if k in first:
                compared += 1
                if first[k] != v:
                    log("%s: not deterministic: %s" % (prop, k))
                    rc = 2
        if f2:
            log("%s: a repeated run fails which didn't fail before" % prop)
            rc = 2

    # one complete case, written out
    samples = []
    cfg0 = sorted(plan)[0]
    for idx in (seed % 7 + 3, seed % 11 + 20):
        try:
            g = subprocess.run(cmdline(bins[cfg0], ["gen", "--prop=" + prop, "--seed=%d" % seed, "--index=%d" % idx]), stdout=subprocess.PIPE, env=environment(), timeout=60)
            t = g.stdout.decode("latin-1").strip().split("\n")
            samples.append(dict(index=idx, plan=t[:60], lines=len(t)))
        except (OSError, subprocess.TimeoutExpired):
            pass

    c = stats.get("count", {})
    z = dict(alloc_faults=0, format_faults=0, preemptions=0, coop_switches=0)
    z.update(stats)
    fired = {k: f(z, c) for k, f in FAULTS.items()}
    for k, v in sorted(c.items()):
        if k.startswith("damage."):
            fired["text damaged in transit: " + k[7:]] = v
    fired = {k: v for k, v in fired.items() if v}
    runs = stats.get("runs", 0)
    hours = max(twork, 0.001) / 3600
    world2 = prop in WORLD2
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=runs,
            distinct_nontrivial=len(distinct),
            rule="A case is one simulated run: a base plan drawn from (seed, property, index), executed undisturbed and then with further schedules and fault windows placed inside the operations it was measured to perform. It is non-trivial if at least one fault fired, one task switch happened inside an operation, a body threw or the registry changed during an execution; distinct means another combination of event log and interleaving (64-bit hashes).",
            samples=samples,
            base_plans=stats.get("bases", 0),
            nontrivial_runs=stats.get("nontrivial", 0),
            variants={k[9:]: v for k, v in c.items() if k.startswith("variants_")},
            faults_fired=fired,
            runs_per_hour=int(runs / hours),
            seeds_per_hour=int(stats.get("bases", 0) / hours),
            simulated_time=dict(unit="instrumented steps (basic blocks, loads and stores of library code); the library reads no clock", total=stats.get("steps", 0), longest_run=stats.get("steps_max_run", 0)),
            distinct_interleavings=stats.get("interleavings", 0),
            task_switches=stats.get("switches", 0),
            library_edges_reached=stats.get("edges", 0),
            allocations=stats.get("allocs", 0), formatting_calls=stats.get("formats", 0),
            rare_conditions={k: v for k, v in sorted(c.items()) if not k.startswith(("damage.", "variants_"))},
            per_configuration={k: dict(runs=v.get("runs", 0), bases=v.get("bases", 0), planned_bases=ncfg[k]) for k, v in percfg.items()},
            determinism=dict(runs_compared=compared, how="indexes re-run in other processes with another distribution over workers; event and interleaving hashes compared"),
            real_code=["all of /repo/src/*.cpp and /repo/include, unmodified, compiled with sanitizers", "operator new/delete and the heap below the fault layer", "strtol/strtod, C locale", "pthread stacks and TLS"],
            stubbed=["allocation failures and heap contents (malloc family wrapped)", "formatting failures (vsnprintf wrapped)", "choice of the running thread (scheduler)", "user code: command bodies, argument types, parsers, element types", "the reference model"],
            build=dict(seconds=round(tbuild, 1), configurations={k: " ".join(CONFIGS[k[0]]["defs"]) + (" tsan" if CONFIGS[k[0]]["tsan"] else " asan+ubsan") for k in plan}, compiler=used),
        ),
        assumptions=[
            "sampling: a clean batch is evidence, not proof",
            "allocation requests above 1 GiB fail, as they would on a small device" if world2 else "moves of user types don't throw",
            "the C locale; glibc on x86-64",
        ],
        wall_s=round(time.time() - t0, 1),
        violations=1 if rc == 1 else 0,
    )
    os.makedirs(EVIDENCE, exist_ok=True)
    p = os.path.join(EVIDENCE, prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.rename(p + ".tmp", p)
    log("%s: %d runs (%d distinct non-trivial), %d bases, %.1f s simulating, %.1f s in all, exit %d" % (prop, runs, len(distinct), stats.get("bases", 0), twork, time.time() - t0, rc))
    return rc


def replay(path, trace):
    text = open(path, encoding="latin-1").read()
    m = re.search(r"config=(\w+)", text)
    cfg = m.group(1)
    bins, _, _ = build_all([cfg])
    body = "\n".join(l for l in text.split("\n") if not l.startswith("#"))
    if body.startswith("batch "):
        p = subprocess.run(cmdline(bins[cfg], body.strip().split()[1:]), env=environment())
        return 1 if p.returncode else 0
    tmp = os.path.join(BUILD, "replay-%d" % os.getpid())
    os.makedirs(tmp, exist_ok=True)
    try:
        rc, t = run_plan(bins[cfg], body, tmp, ["--trace"] if trace else [])
        sys.stdout.write(t)
        return 1 if rc else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def determinism(nseeds):
    bins, _, _ = build_all(ALL_CONFIGS)
    tmp = os.path.join(BUILD, "det-%d" % os.getpid())
    os.makedirs(tmp)
    bad = total = 0
    try:
        for prop in sorted(QUICK):
            for cfg in sorted(configs_of(prop)):
                logs = []
                for rnd, (stride, tag) in enumerate(((8, "x"), (8, "y"), (3, "z"))):
                    got = {}
                    items = [dict(cfg=cfg, binary=bins[cfg], prop=prop, seed=s, w=i, stride=stride, to=24, tier="quick", deadline=600, tag="%s%d" % (tag, s), cold=0 if prop in WORLD2 else 6)
                             for s in range(1, nseeds + 1) for i in range(stride)]
                    done, failed = run_batch(items, tmp)
                    if failed:
                        print(prop, cfg, "FAILED", failed[0].text()[-500:])
                        bad += 1
                    for w in done:
                        s = [a for a in w.args if a.startswith("--seed")][0]
                        for l in open(w.base + ".hashes"):
                            a = l.split()
                            got[(s, a[0], a[1])] = a[2:]
                    for f in glob.glob(os.path.join(tmp, "*")):
                        os.unlink(f)
                    logs.append(got)
                d = [k for k in logs[0] if any(l.get(k) != logs[0][k] for l in logs[1:])]
                total += len(logs[0])
                bad += len(d)
                print(prop, cfg, "%d runs, %d differ" % (len(logs[0]), len(d)), d[:3], flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("total", total, "differing", bad)
    return 1 if bad else 0


def main():
    a = sys.argv[1:]
    if not a:
        log(__doc__)
        return 2
    if a[0] == "setup":
        _, _, t = build_all(ALL_CONFIGS)
        log("built in %.1f s" % t)
        return 0
    if a[0] == "check":
        tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
        if a[1] not in QUICK:
            log("unknown property " + a[1])
            return 2
        return check(a[1], tier)
    if a[0] == "replay":
        return replay(a[1], "--trace" in a)
    if a[0] == "determinism":
        return determinism(int(a[1]) if len(a) > 1 else 3)
    log(__doc__)
    return 2


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:  # an error of the check, not a verdict
        import traceback
        traceback.print_exc()
        sys.exit(2)
