#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--scale F]: decide one property by monitored executions.

Exit 0: no monitor fired. Exit 1: VIOLATION line(s). Exit 2: the check itself could not give an answer."""
import fnmatch, hashlib, json, os, re, signal, subprocess, sys, time
import build as B
from plan import PLAN

VERIF = B.VERIF
NPROC = 8
STALL = 75          # seconds without a finished case before a case is suspected to hang
STALL_CONFIRM = 120
DEADLINE = 660      # a quick check stops here and judges what it has seen
DEADLINE_BAD = 150  # the same once a violation is in hand


def load_known():
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)$", line)
            if m:
                known.append(dict(prop=m.group(1), key=m.group(2), what=m.group(3)))
    return known


SAN_RE = re.compile(r"(ERROR: AddressSanitizer:? ?[^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|ERROR: LeakSanitizer[^\n]*|Assertion [^\n]*failed[^\n]*|malloc\(\)[^\n]*|free\(\)[^\n]*|\*\*\* [^\n]*|terminate called[^\n]*|==\d+== (?:Conditional|Use of|Invalid|Syscall param)[^\n]*)")


# memcheck: report uses of indeterminate memory and invalid accesses in the optimised code
VALGRIND = ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--num-callers=16", "--track-origins=no"]


def prefix(run):
    return VALGRIND if run["variant"] == "vg" else []


def crash_kind(rc, err):
    m = re.search(r"ERROR: AddressSanitizer:? ?([A-Za-z0-9_-]+)", err)
    kind = None
    if m:
        kind = "asan-" + m.group(1)
    elif re.search(r"^==\d+== .*uninitialised", err, re.M):
        kind = "memcheck-uninitialised"
    elif re.search(r"^==\d+== Invalid (read|write|free)", err, re.M):
        kind = "memcheck-" + re.search(r"^==\d+== (Invalid \w+)", err, re.M).group(1).replace(" ", "-").lower()
    else:
        m = re.search(r"runtime error: ([a-z -]+)", err)
        if m:
            kind = "ubsan-" + m.group(1).strip().replace(" ", "-")[:40]
        elif "ThreadSanitizer: data race" in err:
            kind = "tsan-data-race"
        elif "ThreadSanitizer" in err:
            kind = "tsan"
        elif re.search(r"Assertion .* failed", err):
            kind = "assert"
    if not kind:
        kind = "signal-%d" % -rc if rc < 0 else "exit-%d" % rc
    fn = None
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", err):
        if "/src/" in m.group(2):
            fn = m.group(1)
            break
    if not fn:
        m = re.search(r"#\d+ (\S+) /\S*/src/\S+", err)
        fn = m.group(1) if m else None
    if not fn and kind.startswith("memcheck"):
        m = re.search(r"^==\d+==\s+(?:at|by) 0x[0-9A-F]+: (armas\w+)", err, re.M)
        fn = m.group(1) if m else None
    return kind + (":" + fn if fn else "")


class Job:
    def __init__(self, run, binary, shard, nshard, total, outdir):
        self.run, self.binary, self.shard, self.nshard, self.total = run, binary, shard, nshard, total
        self.next = shard
        self.tag = "%s-%s-%d" % (run["name"], run["variant"], shard)
        self.out = os.path.join(outdir, self.tag + ".jsonl")
        self.state = os.path.join(outdir, self.tag + ".state")
        self.err = os.path.join(outdir, self.tag + ".err")
        self.p = None
        self.crashes = 0
        self.done = False
        open(self.out, "w").close()

    def cmd(self, seed, tier):
        c = prefix(self.run) + [self.binary, "--seed", str(seed), "--from", str(self.next), "--to", str(self.total), "--stride",
             str(self.nshard), "--tier", tier, "--out", self.out, "--state", self.state]
        if self.run.get("ops"):
            c += ["--op", self.run["ops"]]
        return c

    def read_state(self):
        try:
            s = open(self.state).read().split()
            return int(s[0]), s[1]
        except Exception:
            return None, "?"


def env_for(run):
    e = dict(os.environ)
    for k in ("ARMAS_CONFIG", "ARMAS_CACHE", "ARMAS_AC_CONFIG", "ARMAS_DEBUG"):
        e.pop(k, None)
    e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=0:allocator_may_return_null=1:max_malloc_fill_size=1048576:malloc_fill_byte=255:detect_stack_use_after_return=0:symbolize=1"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:second_deadlock_stack=1:history_size=4:allocator_may_return_null=1"
    e.update(run.get("env", {}))
    return e


LIVE = set()


def stopped(*_):
    """ended from outside: the harness processes are sessions of their own and go first"""
    for p in list(LIVE):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    os._exit(143)


def spawn(*a, **k):
    for q in [q for q in LIVE if q.poll() is not None]:
        LIVE.discard(q)
    p = subprocess.Popen(*a, start_new_session=True, **k)
    LIVE.add(p)
    return p


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    scale = float(os.environ.get("VP_SCALE", "1"))
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == "--tier":
            tier = a.pop(0)
        elif x == "--scale":
            scale = float(a.pop(0))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    signal.signal(signal.SIGTERM, stopped)
    t0 = time.time()
    plan = PLAN[prop]
    outdir = os.path.join(VERIF, "build", "run", "%s-%d" % (prop, os.getpid()))
    os.makedirs(outdir, exist_ok=True)
    try:
        return decide(prop, plan, tier, seed, scale, outdir, t0)
    except B.BuildError as e:
        print("BUILD-ERROR: %s" % e)
        return 2
    finally:
        subprocess.run(["rm", "-rf", outdir])


def decide(prop, plan, tier, seed, scale, outdir, t0):
    variants = {}
    for run in plan["runs"]:
        variants.setdefault((run["variant"], tuple(run.get("defs", ())), tuple(run.get("link", ()))), set()).add(run["harness"])
    bins = {}
    for (v, defs, link), hs in variants.items():
        r = B.build(v, sorted(hs), defs, link)
        for h, p in r.items():
            bins[(v, defs, link, h)] = p
    t_build = time.time() - t0
    viols, runs_info, samples, opcount, obs, sigs = [], [], [], {}, {}, set()
    evals = 0
    incon = []
    for run in plan["runs"]:
        run = dict(run)
        run.setdefault("name", run["harness"])
        binary = bins[(run["variant"], tuple(run.get("defs", ())), tuple(run.get("link", ())), run["harness"])]
        total = int((run["quick"] if tier == "quick" else run["thorough"]) * scale)
        if total <= 0:
            continue
        t1 = time.time()
        r = execute(run, binary, total, seed, tier, outdir, t0, bool(viols))
        runs_info.append(dict(harness=run["harness"], variant=run["variant"], cases=r["evals"], wall_s=round(time.time() - t1, 1)))
        evals += r["evals"]
        for k, v in r["ops"].items():
            opcount[k] = opcount.get(k, 0) + v
        for k, v in r["obs"].items():
            obs[k] = obs.get(k, 0) + v
        sigs |= r["sigs"]
        samples += r["samples"][:6]
        incon += r["inconclusive"]
        for v in r["viol"]:
            v["run"] = run
            v["binary"] = binary
            viols.append(v)
    known = [k for k in load_known() if k["prop"] == prop]
    hit = {}
    new = {}
    for v in viols:
        k = next((k for k in known if fnmatch.fnmatchcase(v["key"], k["key"])), None)
        if k:
            hit.setdefault(k["key"], k)
        else:
            new.setdefault(v["key"], v)
    wall = time.time() - t0
    cov = dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=plan["rule"],
               samples=samples[:12] or [dict(note="none")], operations=opcount, monitor_events=obs, runs=runs_info,
               build_s=round(t_build, 1), inconclusive=incon[:20])
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=plan.get("level", "exploration"), coverage=cov,
              assumptions=plan.get("assumptions", []), wall_s=round(wall, 1), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d cases, %d distinct non-trivial, %d operations, events %s, %.1fs (build %.1fs)" % (
        prop, evals, len(sigs), len(opcount), sum(obs.values()), wall, t_build))
    if os.environ.get("VP_VERBOSE"):
        print(json.dumps(runs_info), json.dumps(obs))
    for s in incon[:10]:
        print("INCONCLUSIVE: " + s)
    if new:
        rd = os.path.join(VERIF, "build", "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (key, v) in enumerate(new.items()):
            rp = os.path.join(rd, "%s-%s.json" % (prop, hashlib.sha256(key.encode()).hexdigest()[:10]))
            rc = prefix(v["run"]) + [os.path.relpath(v["binary"], VERIF), "--seed", str(seed), "--one", str(v["n"]), "--tier", tier]
            if v["run"].get("ops"):
                rc += ["--op", v["run"]["ops"]]
            with open(rp, "w") as f:
                json.dump(dict(property=prop, key=key, case=v.get("case"), message=v["msg"], variant=v["run"]["variant"],
                               harness=v["run"]["harness"], replay_cmd=rc, log=v.get("log", "")[-6000:]), f, indent=1)
            if i < 40:
                print("VIOLATION property=%s replay=%s" % (prop, rp))
                print("  %s [%s] case %s: %s" % (key, v["run"]["variant"], v["n"], v["msg"][:400]))
                if v.get("case"):
                    print("  with %s" % v["case"][:300])
        return 1
    if incon and evals == 0:
        return 2
    missing = [o for o in plan.get("require_ops", []) if o not in opcount]
    need = [o for o in plan.get("require_obs", []) if obs.get(o, 0) == 0]
    if evals == 0 or len(sigs) < 2 or missing or need:
        print("CHECK-ERROR: too little observed (evaluations %d, distinct %d, missing %s %s)" % (evals, len(sigs), missing, need))
        return 2
    return 0


def execute(run, binary, total, seed, tier, outdir, t0, bad):
    nshard = run.get("procs", NPROC)
    nshard = max(1, min(nshard, total))
    jobs = [Job(run, binary, s, nshard, total, outdir) for s in range(nshard)]
    env = env_for(run)
    viol, incon = [], []

    def start(j):
        if j.next >= j.total:
            j.done = True
            j.p = None
            return
        j.last = (None, time.time())
        j.ef = open(j.err, "w")
        open(j.state, "w").close()
        j.p = spawn(j.cmd(seed, tier), stdout=j.ef, stderr=j.ef, stdin=subprocess.DEVNULL, env=env)

    def kill(j):
        try:
            os.killpg(j.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        j.p.wait()

    def single(j, n, timeout):
        c = prefix(run) + [binary, "--seed", str(seed), "--one", str(n), "--tier", tier, "--out", os.path.join(outdir, "one.jsonl")]
        if run.get("ops"):
            c += ["--op", run["ops"]]
        log = os.path.join(outdir, "one.log")
        with open(log, "w") as f:
            p = spawn(c, env=env, stdout=f, stderr=f, stdin=subprocess.DEVNULL)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = None
        return rc, open(log, errors="replace").read()

    for j in jobs:
        start(j)
    oomk = 0
    hangs = 0
    while any(not j.done for j in jobs):
        time.sleep(0.02)
        now = time.time()
        if tier == "quick" and now - t0 > (DEADLINE_BAD if bad or viol else DEADLINE):
            left = [j for j in jobs if not j.done and j.p.poll() is None]
            for j in left:
                j.p.terminate()
            end = time.time() + 15
            for j in left:
                try:
                    j.p.wait(max(0.1, end - time.time()))
                except subprocess.TimeoutExpired:
                    kill(j)
            for j in jobs:
                j.done = True
            incon.append("%s/%s stopped after %d s" % (run["name"], run["variant"], now - t0))
            break
        for j in jobs:
            if j.done:
                continue
            rc = j.p.poll()
            if rc is None:
                n, op = j.read_state()
                if n != j.last[0]:
                    j.last = (n, now)
                elif now - j.last[1] > STALL and n is not None:
                    kill(j)
                    if hangs >= (1 if tier == "quick" else 3):     # confirmed already: do not spend the whole budget on more
                        j.done = True
                        continue
                    r2, log = single(j, n, STALL_CONFIRM)
                    if r2 is None:
                        hangs += 1
                        viol.append(dict(key="%s:hang" % op, n=n, msg="no progress for %d s, twice" % STALL, case=None, log=log))
                    else:
                        incon.append("%s case %d stalled once but finished on re-run" % (op, n))
                    j.next = n + nshard
                    start(j)
                continue
            j.ef.close()
            if rc == 0:
                j.done = True
                continue
            n, op = j.read_state()
            log = open(j.err, errors="replace").read()
            if n is None:
                raise B.BuildError("harness failed to start: rc=%s\n%s" % (rc, log[-2000:]))
            if rc == -9:
                oomk += 1
                incon.append("%s case %d: process killed from outside" % (op, n))
                if oomk > 10:
                    raise B.BuildError("harness processes are being killed")
                j.next = n
                start(j)
                continue
            kind = crash_kind(rc, log)
            m = SAN_RE.search(log)
            viol.append(dict(key="%s:crash:%s" % (op, kind), n=n, msg=(m.group(0) if m else "process died (rc %d)" % rc), case=None, log=log[:8000]))
            j.crashes += 1
            j.next = n + nshard
            if j.crashes > run.get("max_crashes", 12):
                incon.append("shard %d stopped after %d crashes" % (j.shard, j.crashes))
                j.done = True
                continue
            start(j)
    res = dict(evals=0, ops={}, obs={}, sigs=set(), samples=[], viol=viol, inconclusive=incon)
    for j in jobs:
        got_end = False
        for line in open(j.out, errors="replace"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["t"] == "v" and run["variant"] == "vg":
                pass    # valgrind computes long double in double precision: the value oracles do not apply
            elif d["t"] == "v":
                viol.append(dict(key=d["key"], n=d["n"], msg=d["msg"], case=d["case"]))
            elif d["t"] == "s":
                res["samples"].append(dict(op=d["op"], case=d["case"], n=d["n"], variant=run["variant"]))
            elif d["t"] == "end":
                res["evals"] += d["evals"]
                for k, v in d["ops"].items():
                    res["ops"][k] = res["ops"].get(k, 0) + v
                for k, v in d["obs"].items():
                    res["obs"][k] = res["obs"].get(k, 0) + v
                res["sigs"].update(d["sigs"])
    return res


if __name__ == "__main__":
    sys.exit(main())
