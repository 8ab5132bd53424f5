#!/usr/bin/env python3
"""Run one property's check:  python3 check.py C01 [quick|thorough]

Builds /repo's current working tree into a scratch directory, explores, writes
evidence/<id>.json, prints VIOLATION / KNOWN-FINDING lines, exits 0 or 1
(2: the check itself could not give an answer)."""
import array, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/mc")
sys.path.insert(0, VERIF + "/checks")
import build
from specs import SPECS

NPROC = max(2, min(8, os.cpu_count() or 2))
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:allocator_may_return_null=1:"
                    "detect_stack_use_after_return=0:handle_abort=1:symbolize=1:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "exitcode=77:print_stacktrace=1",
    "LC_ALL": "C.UTF-8", "TZ": "UTC",
})


class Result:
    def __init__(self):
        self.violations = []   # (case, message, detail)
        self.known = set()
        self.stats = {"transitions": 0, "evaluations": 0, "cases": 0}
        self.notes = {}
        self.samples = []
        self.states = set()
        self.distinct = set()

    def merge_lines(self, lines):
        case = ""
        for l in lines:
            f = l.rstrip("\n").split("\t")
            if f[0] == "STAT":
                self.stats[f[1]] = (max if f[1] == "cases" else int.__add__)(
                    self.stats.get(f[1], 0), int(f[2]))
            elif f[0] == "NOTE":
                self.notes[f[1]] = self.notes.get(f[1], 0) + int(f[2])
            elif f[0] == "SAMPLE" and len(self.samples) < 12:
                self.samples.append(f[1])
            elif f[0] == "KNOWN":
                self.known.add(f[1])

    def merge_states(self, path):
        try:
            raw = open(path, "rb").read()
        except OSError:
            return
        o = 0
        for dst in (self.states, self.distinct):
            n = int.from_bytes(raw[o:o + 8], "little")
            o += 8
            a = array.array("Q")
            a.frombytes(raw[o:o + 8 * n])
            o += 8 * n
            dst.update(a)


def read_journal(p):
    try:
        raw = open(p, "rb").read()
    except OSError:
        return -1, ""
    head = raw[:32].split(b"\n")[0]
    try:
        idx = int(head)
    except ValueError:
        idx = -1
    txt = raw[32:].split(b"\0")[0].decode("utf-8", "replace")
    return idx, txt


class Shard:
    def __init__(self, tmp, exe, tier, i, n, known, timeout, only=None, tag=""):
        self.d = "%s/run-%s-%d%s" % (tmp, os.path.basename(exe), i, tag)
        os.makedirs(self.d + "/s", exist_ok=True)
        self.cmd = [exe, "--tier", tier, "--shard", "%d/%d" % (i, n), "--out", self.d + "/out",
                    "--journal", self.d + "/journal", "--scratch", self.d + "/s",
                    "--repo", build.REPO, "--known", known, "--states", self.d + "/states"]
        if only is not None:
            self.cmd += ["--only", str(only)]
        self.i, self.n, self.exe, self.tier, self.known, self.timeout = i, n, exe, tier, known, timeout
        self.log = open(self.d + "/log", "wb")
        self.t0 = time.time()
        self.p = subprocess.Popen(self.cmd, stdout=self.log, stderr=self.log, env=ENV,
                                  cwd=self.d + "/s", start_new_session=True,
                                  stdin=subprocess.DEVNULL)
        self.timed_out = False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass

    def poll(self):
        rc = self.p.poll()
        if rc is None and time.time() - self.t0 > self.timeout:
            self.kill()
            self.p.wait()
            self.timed_out = True
            return -99
        return rc

    def outlines(self):
        try:
            return open(self.d + "/out", errors="replace").read().splitlines()
        except OSError:
            return []

    def logtext(self):
        return open(self.d + "/log", errors="replace").read()[-8000:]


def run_shards(tmp, exe, tier, known, res, nshards, timeout):
    """Run all shards of one explorer; abnormal ends are replayed before they count."""
    running = [Shard(tmp, exe, tier, i, nshards, known, timeout) for i in range(nshards)]
    trouble = None
    while running:
        time.sleep(0.02)
        for s in list(running):
            rc = s.poll()
            if rc is None:
                continue
            running.remove(s)
            v = classify(s, rc)
            if v is None:
                res.merge_lines(s.outlines())
                res.merge_states(s.d + "/states")
            elif v[0] == "harness":
                trouble = "%s shard %d: %s\n%s" % (os.path.basename(exe), s.i, v[1], s.logtext())
            else:
                for r in running:
                    r.kill()
                    r.p.wait()
                running = []
                confirm(tmp, s, v, res)
                break
            shutil.rmtree(s.d + "/s", ignore_errors=True)
    return trouble


def classify(s, rc):
    lines = s.outlines()
    if rc == 0 and lines and lines[-1] == "DONE":
        return None
    if rc == 10:
        idx = case = msg = None
        for l in lines:
            if l.startswith("VIOLIDX\t"):
                idx = int(l.split("\t")[1])
            elif l.startswith("VIOLCASE\t"):
                case = l.split("\t", 1)[1]
            elif l.startswith("VIOL\t"):
                msg = l.split("\t", 1)[1]
        return ("viol", idx, case, msg)
    if rc == 90:
        return ("harness", "harness error")
    idx, case = read_journal(s.d + "/journal")
    kind = "hang" if rc in (78, -99) else "crash"
    if case == "start":
        return ("harness", "ended with %r before the first case" % rc)
    return (kind, idx, case, "%s (exit status %r)" % (
        "execution does not terminate" if kind == "hang" else "execution crashed", rc))


def confirm(tmp, s, v, res):
    """Replay before report: same case alone, then (if needed) the whole shard."""
    kind, idx, case, msg = v
    if os.environ.get("MC_NOCONFIRM"):
        res.violations.append((case, msg, s.logtext(), s.cmd))
        return
    for k, only in enumerate([idx if idx is not None and idx >= 0 else None, None]):
        r = Shard(tmp, s.exe, s.tier, s.i, s.n, s.known,
                  s.timeout if kind != "hang" else max(120, s.timeout), only=only, tag="-r%d" % k)
        while r.poll() is None:
            time.sleep(0.02)
        rv = classify(r, r.p.returncode if not r.timed_out else -99)
        if rv is not None and rv[0] != "harness":
            res.violations.append((rv[2], rv[3], r.logtext(), r.cmd))
            return
    raise RuntimeError("failure of %s did not replay: %s / %s\n%s" % (s.exe, case, msg, s.logtext()))


def load_known(pid):
    out = {}
    try:
        for l in open(VERIF + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return out


def scratch_base():
    """Memory backed scratch space when there is plenty of it."""
    try:
        st = os.statvfs("/dev/shm")
        if st.f_bavail * st.f_frsize > 8 << 30 and not st.f_flag & os.ST_NOEXEC and os.access("/dev/shm", os.W_OK | os.X_OK):
            t = tempfile.NamedTemporaryFile(dir="/dev/shm")
            t.close()
            return "/dev/shm"
    except OSError:
        pass
    return None


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = SPECS[pid]
    t0 = time.time()
    tmp = os.environ.get("MC_TMP")  # development: a fixed directory, for ccache
    if tmp:
        os.makedirs(tmp)
    else:
        tmp = tempfile.mkdtemp(prefix="bpakmc-%s-" % pid, dir=scratch_base())
    res = Result()
    known = load_known(pid)
    kf = tmp + "/known"
    open(kf, "w").write("".join(k + "\n" for k in known))
    rc = 2
    try:
        trouble = None
        for job in spec["jobs"]:
            if job["kind"] == "c":
                libobjs = [] if job.get("nolib") else build.build_lib(
                    tmp, job.get("variant", "san"),
                    list(job.get("cflags", ())) + list(job.get("libflags", ())))
                if job.get("tool"):
                    libobjs = libobjs + build.build_tool(tmp, job.get("variant", "san"))
                exe = build.build_harness(tmp, job["name"], job["src"], libobjs,
                                          job.get("variant", "san"), job.get("cflags", ()),
                                          job.get("ld", ()))
                if job.get("timeout_%s" % tier):
                    tmo = job["timeout_%s" % tier]
                else:
                    tmo = 400 if tier == "quick" else 3000
                trouble = run_shards(tmp, exe, tier, kf, res,
                                     job.get("shards", NPROC), tmo) or trouble
            else:
                mod = importlib.import_module(job["module"])
                trouble = mod.run(dict(tmp=tmp, tier=tier, res=res, known=known, seed=seed,
                                       env=ENV, nproc=NPROC, job=job)) or trouble
            if res.violations:
                break
        for k in sorted(res.known):
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, k, known.get(k, "")))
        if res.violations:
            os.makedirs(VERIF + "/replays", exist_ok=True)
            for n, (case, msg, detail, cmd) in enumerate(res.violations[:5]):
                rp = "%s/replays/%s-%d.txt" % (VERIF, pid, n)
                with open(rp, "w") as f:
                    f.write("property: %s\ncase: %s\nviolation: %s\nreplay: python3 %s/check.py %s %s\n"
                            "command: %s\n\n%s\n" % (pid, case, msg, VERIF, pid, tier,
                                                      " ".join(map(str, cmd or [])), detail))
                print("%s: case: %s" % (pid, str(case)[:600]))
                print("%s: %s" % (pid, str(msg)[:800]))
                print("VIOLATION property=%s replay=%s" % (pid, rp))
            rc = 1
        elif trouble:
            print("ERROR: " + trouble)
            rc = 2
        else:
            rc = 0
        cov = {}
        st = res.stats
        if spec["level"] == "model_checking":
            cov["states"] = len(res.states)
            cov["transitions"] = st["transitions"]
            cov["traces_validated_against_impl"] = st["evaluations"]
        else:
            cov["evaluations"] = st["evaluations"]
            cov["distinct_nontrivial"] = len(res.distinct)
            cov["rule"] = spec["rule"]
            if res.states:
                cov["states"] = len(res.states)
            if st["transitions"]:
                cov["transitions"] = st["transitions"]
        if spec["level"] == "model_checking" and res.distinct:
            cov["distinct_outcomes"] = len(res.distinct)
        cov["samples"] = res.samples or ["(none)"]
        cov["bounds"] = spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"]
        cov["counters"] = res.notes
        cov["exhaustive"] = bool(spec.get("exhaustive", True)) and rc == 0
        ev = dict(property=pid, tier=tier, seed=seed, level=spec["level"], coverage=cov,
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2),
                  violations=len(res.violations))
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, pid), "w"), indent=1)
        print("%s %s: exit %d, %.1fs, states=%d transitions=%d evaluations=%d distinct=%d" % (
            pid, tier, rc, time.time() - t0, len(res.states), st["transitions"],
            st["evaluations"], len(res.distinct)))
    except build.BuildError as e:
        print("ERROR: build failed: %s" % e)
        rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    finally:
        if not os.environ.get("MC_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print("kept", tmp)
    sys.exit(rc)


if __name__ == "__main__":
    main()
