"""Runs a check: builds its harnesses, drives them over many cases in parallel, and judges
what the monitors (harness oracles and sanitizers) reported."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time
import vbuild
from vbuild import VERIF

KNOWN = os.path.join(VERIF, "known_findings.json")
ENV_BASE = {
    "ASAN_OPTIONS": "detect_leaks=0:malloc_context_size=6:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
                    "max_malloc_fill_size=1048576:malloc_fill_byte=190:detect_stack_use_after_return=0:"
                    "handle_abort=1:max_allocation_size_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1:"
                    "detect_deadlocks=0:suppressions=%s" % os.path.join(VERIF, "tools", "tsan.supp"),
}


def known_findings():
    if not os.path.exists(KNOWN):
        return []
    return json.load(open(KNOWN)).get("findings", [])


FRAME = re.compile(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+|\(\S+\)|<null>)", re.M)


def classify_crash(rc, err):
    """-> (key, message) for a process that died."""
    frames = []
    for m in FRAME.finditer(err):
        fn, where = m.group(1), m.group(2)
        if "/repo/" in where or "/inc/Field3D/" in where or "/src/" in where:
            frames.append(re.sub(r"[<(].*", "", fn))
            if len(frames) >= 2:
                break
    top = frames[0] if frames else "?"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan:%s:%s" % (m.group(1), top), err_excerpt(err, "ERROR: AddressSanitizer")
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "ubsan:%s:%s" % (re.sub(r"0x[0-9a-f]+|-?\d[\d.e+-]*", "N", m.group(1))[:60], top), \
            err_excerpt(err, "runtime error")
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
    if m:
        return "tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), top), \
            err_excerpt(err, "WARNING: ThreadSanitizer")
    m = re.search(r"Assertion `(.*?)' failed", err)
    if m:
        return "assert:%s" % m.group(1)[:80], err[-600:]
    return "died:rc%s" % rc, err[-800:]


def err_excerpt(err, mark):
    i = err.find(mark)
    return err[max(0, i - 40):i + 5000]


class Shard(threading.Thread):
    def __init__(self, job, exe, start, step, count, limit, seed, tier, only=None, scale=1.0):
        super().__init__()
        self.job, self.exe, self.start_, self.step, self.count = job, exe, start, step, count
        self.limit, self.seed, self.tier, self.only, self.scale = limit, seed, tier, only, scale
        self.viol, self.counts, self.seen, self.samples = [], {}, {}, []
        self.done = False
        self.infra = None

    def run(self):
        t_end = time.time() + self.limit
        nxt, restarts = self.start_, 0
        known = {k["key"] for k in known_findings() if k["property"] == self.job["pid"]}
        while True:
            left = t_end - time.time()
            if self.only is None and (nxt >= self.count or left <= 0):
                self.done = True
                return
            died_at, viols = self.once(nxt, max(left, 1))
            self.viol += viols
            if died_at is None or self.only is not None:
                self.done = True
                return
            restarts += 1
            nxt = died_at + self.step
            hard = [v for v in self.viol if v[1] not in known]
            if hard or restarts > 200:
                self.done = True
                return

    def once(self, nxt, left):
        tmp = tempfile.mkdtemp(prefix="f3dv_", dir="/tmp")
        viols, cur, died = [], nxt, None
        try:
            env = dict(os.environ)
            env.update(ENV_BASE)
            env.update(self.job.get("env", {}))
            env["VF_TIMEOUT_SCALE"] = str(self.scale)
            env["HOME"] = tmp
            cmd = [self.exe, "--seed", str(self.seed), "--start", str(nxt), "--step", str(self.step),
                   "--count", str(self.count), "--limit", str(left), "--tmp", tmp]
            if self.only is not None:
                cmd += ["--only", str(self.only)]
            if self.tier == "thorough":
                cmd += ["--thorough"]
            errf = open(os.path.join(tmp, ".stderr"), "w+", errors="replace")
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=errf, env=env,
                                 text=True, errors="replace", cwd=tmp)
            guard = threading.Timer(left + 700, p.kill)
            guard.start()
            finished = hang = False
            for line in p.stdout:
                if not line.startswith("@@"):
                    continue
                f = line[2:].rstrip("\n").split("\t")
                if f[0] == "START":
                    cur = int(f[1])
                    if os.fstat(errf.fileno()).st_size > 64 << 20:
                        os.ftruncate(errf.fileno(), 0)
                elif f[0] == "VIOL":
                    viols.append((int(f[1]), f[2], f[3]))
                elif f[0] == "HANG":
                    hang = True
                elif f[0] == "COUNT":
                    self.counts[f[1]] = self.counts.get(f[1], 0) + int(f[2])
                elif f[0] == "SEEN":
                    self.seen.setdefault(f[1], set()).update(f[2:])
                elif f[0] == "SAMPLE":
                    self.samples.append(f[1])
                elif f[0] == "DONE":
                    finished = True
            rc = p.wait()
            guard.cancel()
            errf.flush()
            err = open(errf.name, errors="replace").read()[-400000:]
            errf.close()
            if not finished:
                died = cur
                if hang:
                    viols.append((cur, "hang", "case did not finish within its time limit"))
                elif rc == -9:
                    self.infra = "killed (SIGKILL) at case %d" % cur
                    viols.append((cur, "killed", "process was killed (out of memory or over time)"))
                else:
                    key, msg = classify_crash(rc, err)
                    viols.append((cur, key, msg))
            return died, viols
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def run_check(pid, spec, tier, seed, only=None, only_job=None):
    t0 = time.time()
    jobs = [dict(j, pid=pid) for j in spec["jobs"] if only_job or j.get("tier", tier) == tier]
    if only_job is not None:
        jobs = [j for j in jobs if j["name"] == only_job]
    exes = vbuild.build([dict(variant=j["variant"], sources=j.get("sources", []), app=j.get("app"),
                              link=j.get("link", []), defs=j.get("defs", [])) for j in jobs])
    t_build = time.time() - t0
    # auxiliary binaries made available to harnesses through the environment
    all_viol, counts, seen, samples, per_job = [], {}, {}, [], {}
    aux = spec.get("aux", [])
    auxenv = {}
    if aux:
        ap = vbuild.build([dict(variant=a["variant"], sources=a.get("sources", []), app=a.get("app"),
                                link=a.get("link", []), defs=a.get("defs", []), nolib=a.get("nolib"))
                           for a in aux])
        for a, p in zip(aux, ap):
            auxenv[a["env"]] = p
    for j, exe in zip(jobs, exes):
        q = j[tier] if tier in j else j["quick"]
        j["env"] = dict(auxenv, **j.get("env", {}))
        n = 1 if only is not None else q.get("shards", 8)
        shards = [Shard(j, exe, k, n, q["cases"], q["limit"], seed, tier, only) for k in range(n)]
        for s in shards:
            s.start()
        for s in shards:
            s.join()
        jc, js = {}, {}
        for s in shards:
            for k, v in s.counts.items():
                jc[k] = jc.get(k, 0) + v
            for k, v in s.seen.items():
                js.setdefault(k, set()).update(v)
            samples += s.samples[:1]
        viol = [v for s in shards for v in s.viol]
        # a hang or kill has to reproduce alone, with more time, before it counts
        final = []
        retried = 0
        for (c, k, m) in viol:
            if k in ("hang", "killed") and only is None:
                if retried >= 1 and any(f[1] in ("hang", "killed") for f in final):
                    continue
                retried += 1
                confirmed = False
                for _ in range(1 if j.get("det_hang", True) else 4):
                    r = Shard(j, exe, c, 1, c + 1, 400, seed, tier, only=c, scale=1.5)
                    r.start(); r.join()
                    if r.viol:
                        final += [(c, kk, mm) for (_, kk, mm) in r.viol]
                        confirmed = True
                        break
                if not confirmed and j.get("hang_counts_once"):
                    final.append((c, k, m))
            else:
                final.append((c, k, m))
        for (c, k, m) in final:
            all_viol.append((j["name"], c, k, m))
        per_job[j["name"]] = dict(variant=j["variant"], counters=jc,
                                  distinct={k: len(v) for k, v in js.items()})
        for k, v in jc.items():
            counts[k] = counts.get(k, 0) + v
        for k, v in js.items():
            seen.setdefault(k, set()).update(v)

    known = [k for k in known_findings() if k["property"] == pid]
    kkeys = {k["key"]: k for k in known}
    new, hit = {}, set()
    for (jn, c, k, m) in all_viol:
        if k in kkeys:
            hit.add(k)
        else:
            new.setdefault(k, (jn, c, m))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rdir = os.path.join(VERIF, "replays")
    for k, (jn, c, m) in list(new.items())[:6]:
        os.makedirs(rdir, exist_ok=True)
        safe = re.sub(r"[^A-Za-z0-9_.-]+", "_", k)[:60]
        rp = os.path.join(rdir, "%s-%s-%d-%s.json" % (pid, jn, c, safe))
        json.dump(dict(property=pid, job=jn, case=c, seed=seed, tier=tier, key=k, detail=m,
                       rerun="cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 tools/check.py %s --job %s --case %d"
                             % (seed, tier, pid, jn, c)), open(rp, "w"), indent=1)
        print("  %s: %s: %s" % (pid, k, m[:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    ncases = counts.get("cases", 0)
    nontriv = len(seen.get("nontrivial", ()))
    infra_bad = only is None and not new and (ncases < spec.get("min_cases", 1) or nontriv < 1)
    if only is None:
        ev = dict(property=pid, tier=tier, seed=seed, level=spec["level"],
                  coverage=dict(evaluations=ncases, distinct_nontrivial=nontriv, rule=spec["rule"],
                                samples=samples[:8] or ["none"],
                                monitor_events={k: v for k, v in sorted(counts.items())},
                                distinct_states={k: len(v) for k, v in sorted(seen.items())},
                                per_job=per_job, build_s=round(t_build, 1)),
                  assumptions=spec.get("assumptions", []),
                  violations=len(new), wall_s=round(time.time() - t0, 2))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s tier=%s cases=%d distinct_nontrivial=%d checks=%d violations=%d known=%d build=%.0fs wall=%.0fs"
          % (pid, tier, ncases, nontriv, counts.get("checks", 0), len(new), len(hit), t_build,
             time.time() - t0))
    if new:
        return 1
    if infra_bad:
        print("ERROR: the workload did not run (cases=%d, need %d)" % (ncases, spec.get("min_cases", 1)))
        return 2
    return 0
