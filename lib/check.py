"""Orchestrates one check: build from /repo, run drivers under mpirun, watch, judge, report.

Verdicts: PASS (exit 0), VIOLATION (exit 1), inconclusive (exit 2: build failure or harness
error).  Every bad outcome becomes a key; keys listed in known_findings.jsonl print KNOWN-FINDING.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shlex
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild  # noqa
import props  # noqa

VERIF = vbuild.VERIF
MPIENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1", "OMPI_MCA_plm": "isolated", "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_pml": "ob1", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMP_NUM_THREADS": "1",
}
STALL = float(os.environ.get("VERIF_STALL", "45"))     # seconds without any progress marker change
STALL_RETRY = float(os.environ.get("VERIF_STALL_RETRY", "70"))
SHM = "/dev/shm"


class Run:
    """One mpirun of one driver."""

    def __init__(self, driver, port="ts", san="plain", np=4, n=10, env=None, mode="", lo=0, opts=None,
                 n_thorough=None, launcher=True, extra_args=None, weight=None, expect=None):
        self.driver, self.port, self.san, self.np, self.n = driver, port, san, np, n
        self.env, self.mode, self.lo, self.opts = dict(env or {}), mode, lo, dict(opts or {})
        self.n_thorough = n_thorough
        self.launcher = launcher
        self.extra_args = list(extra_args or [])
        self.weight = weight or (np if launcher else 1)
        self.probe = ""

    def name(self):
        e = ",".join("%s=%s" % kv for kv in sorted(self.env.items()))
        return "%s/%s/%s/np%d%s%s" % (self.driver, self.port, self.san, self.np,
                                      "/" + self.mode if self.mode else "", "/" + e if e else "")


def slug(s, n=160):
    return re.sub(r"[^A-Za-z0-9_.:,+=/()\[\]<>-]+", "_", s)[:n]


def frames_of(text):
    """innermost frame inside /repo (or the harness) of a sanitizer stack"""
    first = None
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+)(?: (\S+))?", text):
        fn, loc = m.group(1), m.group(2) or ""
        if "/repo/" in loc or loc.startswith("/verif") or "harness/" in loc:
            return fn, os.path.basename(loc.split(":")[0])
        first = first or (fn, os.path.basename(loc.split(":")[0]))
    return first or ("?", "?")


def parse_asan(text):
    keys = []
    for m in re.finditer(r"==\d+==ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer): ([^\n]*)", text):
        kind = m.group(2).split(" on ")[0].split(" (")[0].strip()
        fn, f = frames_of(text[m.start():m.start() + 6000])
        keys.append(("asan:%s:%s:%s" % (slug(kind.split(":")[0], 40), f, fn), text[m.start():m.start() + 3500]))
    for m in re.finditer(r"WARNING: ThreadSanitizer: ([^\n(]*)", text):
        fn, f = frames_of(text[m.start():m.start() + 6000])
        keys.append(("tsan:%s:%s:%s" % (slug(m.group(1).strip(), 40), f, fn), text[m.start():m.start() + 3500]))
    return keys


UBKIND = [
    (r"signed integer overflow", "signed-overflow"), (r"index .* out of bounds", "bounds"),
    (r"null pointer", "null"), (r"shift exponent|left shift", "shift"), (r"division by zero", "divzero"),
    (r"outside the range of representable", "float-cast"), (r"insufficient space", "object-size"),
    (r"variable length array", "vla"), (r"not a valid value for type", "bad-bool-enum"),
    (r"applying .*offset|pointer index expression|overflowed to", "ptr-arith"),
    (r"unreachable", "unreachable"), (r"negation of", "signed-overflow"), (r"memory access", "mem"),
]


def parse_ubsan(text):
    keys = []
    for m in re.finditer(r"(\S+?):(\d+):(\d+): runtime error: ([^\n]*)", text):
        msg = m.group(4)
        kind = next((k for r, k in UBKIND if re.search(r, msg)), "other")
        fn, _ = frames_of(text[m.end():m.end() + 1500].split("runtime error:")[0])
        keys.append(("ub:%s:%s:%s" % (kind, os.path.basename(m.group(1)), fn), text[m.start():m.start() + 1500]))
    return keys


class Result:
    def __init__(self):
        self.keys = []       # (key, detail)
        self.harness = []    # inconclusive reasons
        self.counters = {}
        self.hashes = set()
        self.samples = []
        self.rc = None
        self.hung = None
        self.wall = 0
        self.log = ""


def alive_children(pgid):
    out = []
    for p in glob.glob("/proc/[0-9]*/stat"):
        try:
            s = open(p).read()
            f = s[s.rindex(")") + 2:].split()
            if int(f[2]) == pgid:
                out.append(int(p.split("/")[2]))
        except Exception:
            pass
    return out


def marker(d):
    h = hashlib.md5()
    for p in sorted(glob.glob(d + "/prog.*")):
        try:
            h.update(open(p, "rb").read())
        except OSError:
            pass
    return h.hexdigest()


def read_markers(d):
    out = []
    for p in sorted(glob.glob(d + "/prog.*"), key=lambda x: int(x.rsplit(".", 1)[1])):
        try:
            out.append((int(p.rsplit(".", 1)[1]), open(p, "rb").read().split(b"\0")[0].decode(errors="replace")))
        except OSError:
            pass
    return out


def execute(run, exe, seed, lo, hi, work, stall=None):
    """one mpirun; returns Result"""
    stall = stall or STALL
    d = tempfile.mkdtemp(prefix="r", dir=work)
    env = {k: v for k, v in os.environ.items() if not k.startswith(("COMEX_", "GA_", "DRA_", "ARMCI_", "MA_"))}
    env.update(MPIENV)
    env["TMPDIR"] = d
    env["OMPI_MCA_orte_tmpdir_base"] = d
    env["VERIF_SCRATCH"] = d
    if run.san == "asan":
        env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=99:abort_on_error=0:halt_on_error=1:handle_segv=1:"
                               "allocator_may_return_null=1:detect_stack_use_after_return=0:log_path=%s/asan" % d)
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:log_path=%s/ubsan" % d
    if run.san == "tsan":
        env["PMIX_MCA_gds"] = "hash"  # the shared-memory store of PMIx wants addresses that ThreadSanitizer uses
        env["TSAN_OPTIONS"] = "exitcode=0:halt_on_error=0:report_signal_unsafe=0:history_size=4:ignore_noninstrumented_modules=1:log_path=%s/tsan" % d
    env.update({k: v.replace("$OUT", d) for k, v in run.env.items()})
    args = [exe, "--seed", str(seed), "--lo", str(lo), "--hi", str(hi), "--out", d]
    if run.probe:
        args += ["--probe", run.probe]
    if run.mode:
        args += ["--mode", run.mode]
    args += run.extra_args
    cmd = (["mpirun", "-n", str(run.np)] + args) if run.launcher else args
    res = Result()
    t0 = time.time()
    so = open(d + "/stdout", "wb")
    se = open(d + "/stderr", "wb")
    p = subprocess.Popen(cmd, stdout=so, stderr=se, cwd=d, env=env, start_new_session=True, stdin=subprocess.DEVNULL)
    last, lastt = None, time.time()
    pids = set([p.pid])
    while True:
        try:
            res.rc = p.wait(0.15 if time.time() - t0 < 5 else 0.5)
            break
        except subprocess.TimeoutExpired:
            pass
        m = marker(d)
        if m != last:
            last, lastt = m, time.time()
        if time.time() - lastt > stall:
            res.hung = read_markers(d)
            break
    kill_session(p, d)
    res.wall = time.time() - t0
    so.close()
    se.close()
    err = open(d + "/stderr", "rb").read()[-20000:].decode(errors="replace")
    out = open(d + "/stdout", "rb").read()[-6000:].decode(errors="replace")
    res.log = "CMD " + " ".join(shlex.quote(a) for a in cmd) + "\nENV " + json.dumps(run.env) + "\n--- stderr\n" + err + "\n--- stdout\n" + out
    for f in sorted(glob.glob(d + "/harness.*")):
        res.harness.append(open(f, errors="replace").read()[:2000])
    viol = []
    for f in sorted(glob.glob(d + "/viol.*")):
        t = open(f, errors="replace").read()
        for blk in t.split("KEY ")[1:]:
            viol.append((blk.split("\n", 1)[0].strip(), blk[:6000]))
    # a monitor may record several deviations before stopping
    res.keys += viol
    for f in sorted(glob.glob(d + "/asan.*") + glob.glob(d + "/tsan.*")):
        t = open(f, errors="replace").read()
        if run.san == "tsan" or "ERROR: AddressSanitizer" in t:
            res.keys += parse_asan(t)
        res.keys += parse_ubsan(t)
    for f in sorted(glob.glob(d + "/ubsan.*")):
        res.keys += parse_ubsan(open(f, errors="replace").read())
    done = 0
    for f in sorted(glob.glob(d + "/done.*")):
        t = open(f, errors="replace").read().split("\n")
        if "END" not in t:
            continue
        done += 1
        for l in t:
            if l.startswith("C "):
                _, k, v = l.split()
                if k == "cases":
                    res.counters[k] = max(res.counters.get(k, 0), int(v))
                else:
                    res.counters[k] = res.counters.get(k, 0) + int(v)
            elif l.startswith("H "):
                res.hashes.add(l[2:])
            elif l.startswith("S "):
                res.samples.append(l[2:])
    marks = read_markers(d)
    if not viol and not res.harness and not [k for k in res.keys if k[0].startswith("asan:")]:
        expected = run.opts.get("done", None)
        if expected is None:
            expected = run.np - (int(run.env.get("GA_NUM_PROGRESS_RANKS_PER_NODE", "1")) if run.port == "pr" else 0)
            if run.port == "pr" and "MON_SUB" in run.env:
                expected -= 1  # two instances, each with a process of its own that serves the others
            expected = expected if run.launcher else 1
        if res.hung is not None:
            res.keys.append(("hang:%s" % where(res.hung), "no progress for %.0fs; markers: %s" % (stall, res.hung)))
        elif res.rc != 0 or done < expected:
            if not marks:
                res.harness.append("driver never started: rc=%s\n%s" % (res.rc, err[-1500:]))
            else:
                res.keys.append(("abort:%s" % where(marks), "rc=%s done=%d/%d markers=%s\nstderr: %s" % (
                    res.rc, done, expected, marks, err[-3000:])))
    shutil.rmtree(d, ignore_errors=True)
    return res


def where(marks):
    """short class of where the ranks were: the driver's own op marks without the numbers"""
    for r, t in marks:
        if "|" in t and "finished" not in t:
            return slug(re.sub(r"[-\d\[\]:,.]+", "", t.split("|", 1)[1]).strip(), 60)
    return slug(re.sub(r"\S*\d\S*", "", marks[0][1]).strip() if marks else "start", 60) or "start"


def kill_session(p, d):
    """end everything of this run's session (found by its scratch directory in our own children)"""
    try:
        sid = p.pid
        for sig in (signal.SIGTERM, signal.SIGKILL):
            n = 0
            for q in glob.glob("/proc/[0-9]*/stat"):
                try:
                    s = open(q).read()
                    f = s[s.rindex(")") + 2:].split()
                    if int(f[3]) == sid and f[0] != "Z":
                        os.kill(int(q.split("/")[2]), sig)
                        n += 1
                except Exception:
                    pass
            if not n:
                break
            time.sleep(0.3)
        p.wait(5)
    except Exception:
        pass


class Sem:
    """weighted semaphore over cores"""

    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def acquire(self, k):
        k = min(k, CORES)
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k
        return k

    def release(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


CORES = int(os.environ.get("VERIF_SLOTS", "10"))


def cleanup_shm(before):
    for f in set(os.listdir(SHM)) - before:
        if f.startswith(("cmx", "vader_segment", "sem.", "psm", "osc_")) or "cmx" in f:
            try:
                os.unlink(os.path.join(SHM, f))
            except OSError:
                pass


def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                out.append(json.loads(l))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only = os.environ.get("VERIF_ONLY", "")
    t0 = time.time()
    P = props.PROPS[pid]
    runs = P["runs"](tier, Run)
    probes = P.get("probes", lambda t, R: [])(tier, Run)
    if only:
        runs = [r for r in runs if only in r.name()]
    jobs = {}
    drivers = props.DRIVERS
    for r in runs + [x[1] for x in probes]:
        spec = drivers[r.driver]
        j = jobs.setdefault((r.port, r.san), dict(port=r.port, san=r.san, parts=set(), drivers={}))
        j["parts"] |= set(spec.get("parts", ["ga"]))
        j["drivers"][r.driver] = (r.driver, spec["src"], spec.get("flags", []))
    bl = [dict(port=j["port"], san=j["san"], parts=sorted(j["parts"]), drivers=list(j["drivers"].values())) for j in jobs.values()]
    try:
        exes = vbuild.build_many(bl)
    except vbuild.BuildError as e:
        print("BUILD-ERROR %s" % str(e)[-3000:])
        return 2
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid.lower(), dir="/tmp")
    shm_before = set(os.listdir(SHM))
    known = [k for k in load_known() if k["property"] == pid and k.get("status") == "finding"]
    sem = Sem(CORES)
    results = []
    stop = threading.Event()

    def one(r, lo, hi):
        if stop.is_set():
            return r, lo, hi, None
        k = sem.acquire(r.weight)
        try:
            if stop.is_set():
                return r, lo, hi, None
            exe = exes[(r.port, r.san, r.driver)]
            res = execute(r, exe, seed, lo, hi, work)
            if res.harness and "never started" in res.harness[0]:
                res = execute(r, exe, seed, lo, hi, work)
            if res.hung is not None and any(k0.startswith("hang:") for k0, _ in res.keys):
                # a stall is inconclusive by itself: repeat once, with a longer limit
                res2 = execute(r, exe, seed, lo, hi, work, stall=STALL_RETRY)
                res = res2
            if any(k0.startswith("abort:") for k0, _ in res.keys) and len(res.keys) == 1 and not re.search(
                    r"signal|Received an Error|assert|abort|Error", res.log.split("--- stderr", 1)[1], re.I):
                # the launcher ended without saying why and nothing in the program complained: repeat once
                res = execute(r, exe, seed, lo, hi, work)
            return r, lo, hi, res
        finally:
            sem.release(k)

    def bad(res, r):
        return [k for k in res.keys if not matches(k[0], known)]

    def matches(key, kn):
        return next((x for x in kn if re.fullmatch(x["key"], key)), None)

    violations, harness, knownhits, others = [], [], {}, []
    wanted = P.get("only_keys")  # the kinds of deviation this property is about; others belong to other checks
    try:
        with cf.ThreadPoolExecutor(16) as ex:
            futs = []
            for r in runs:
                n = r.n if tier == "quick" else (r.n_thorough or r.n * 15)
                n = max(1, int(n * scale))
                lo0 = r.lo
                chunk = r.opts.get("chunk", 10 ** 9)
                while n > 0:
                    c = min(chunk, n)
                    futs.append(ex.submit(one, r, lo0, lo0 + c))
                    lo0 += c
                    n -= c
            pf = {}
            for kid, r in probes:
                pf[ex.submit(one, r, r.lo, r.lo + r.n)] = kid
            for f in cf.as_completed(futs + list(pf)):
                r, lo, hi, res = f.result()
                if res is None:
                    continue
                results.append((r, lo, hi, res))
                isprobe = f in pf
                if res.harness:
                    harness.append((r, lo, hi, res))
                for key, detail in res.keys:
                    kn = matches(key, known)
                    if wanted and not re.match(wanted, key):
                        others.append((key, r))
                    elif kn:
                        knownhits.setdefault(kn["id"], (kn, key, r))
                    else:
                        violations.append((key, detail, r, lo, hi, res))
                if violations and not os.environ.get("VERIF_KEEP_GOING"):
                    stop.set()
    finally:
        shutil.rmtree(work, ignore_errors=True)
        cleanup_shm(shm_before)

    counters, hashes, samples = {}, set(), []
    perrun = []
    for r, lo, hi, res in results:
        for k, v in res.counters.items():
            counters[k] = counters.get(k, 0) + v
        hashes |= {(r.driver + (r.mode or "") + h) for h in res.hashes}
        if res.samples:
            samples.append("%s: %s" % (r.name(), res.samples[(seed + lo) % len(res.samples)]))
        perrun.append(dict(run=r.name(), cases=[lo, hi], wall_s=round(res.wall, 1), rc=res.rc,
                           probe=r.probe or None, executed=res.counters.get("cases", 0)))
    cov = dict(evaluations=max(counters.get("cases", 0), len(hashes)), distinct_nontrivial=len(hashes), rule=P["rule"],
               samples=samples[:12], monitor_counts={k: v for k, v in sorted(counters.items()) if k != "cases"},
               runs=sorted(perrun, key=lambda x: x["run"]), build_s=round(tb, 1))
    floor_fail = []
    if not violations and not harness and not others and not only and scale >= 1:
        for k, v in P.get("floors", {}).items():
            if counters.get(k, 0) < v:
                floor_fail.append("%s=%d < %d" % (k, counters.get(k, 0), v))
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get("level", "exploration"), coverage=cov,
              assumptions=P.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for kid, (kn, key, r) in sorted(knownhits.items()):
        print("KNOWN-FINDING: property=%s %s [%s] %s" % (pid, kn["id"], key, kn["what"]))
    for key, r in others[:5]:
        print("NOTE: %s ended early by a deviation of another kind (%s), judged by another property's check" % (r.name(), key))
    if violations:
        rd = os.path.join(VERIF, ".build", "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for key, detail, r, lo, hi, res in violations:
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(rd, "%s-%s.txt" % (pid, hashlib.md5((key + r.name()).encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                f.write("property %s\nkey %s\nrun %s\nseed %d cases [%d,%d)\ntier %s\n%s\n\n%s\n" % (
                    pid, key, r.name(), seed, lo, hi, tier, detail, res.log))
            print("VIOLATION property=%s replay=%s key=%s run=%s" % (pid, path, key, r.name()))
            print("  " + detail.replace("\n", "\n  ")[:1500])
        return 1
    if harness:
        for r, lo, hi, res in harness[:3]:
            print("HARNESS-ERROR %s [%d,%d): %s\n%s" % (r.name(), lo, hi, res.harness[0], res.log[-2500:]))
        return 2
    if floor_fail:
        print("INCONCLUSIVE: the monitors observed less than the committed floor: " + "; ".join(floor_fail))
        return 2
    print("PASS property=%s tier=%s cases=%d distinct=%d wall=%.1fs (build %.1fs) %s" % (
        pid, tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, tb,
        " ".join("%s=%d" % kv for kv in list(cov["monitor_counts"].items())[:12])))
    return 0


if __name__ == "__main__":
    sys.exit(main())
