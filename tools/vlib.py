"""Common machinery of the checks: building and running drivers, TLC, evidence, verdicts."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import build as B

SPECS = os.path.join(VERIF, "specs")
NCPU = min(8, os.cpu_count() or 1)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class CheckError(Exception):
    pass

class Ctx:
    """One run of one check."""
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.t0 = time.time()
        self.work = os.path.join(B.BUILD, "run", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0,
                        executions=0, programs=0, mc_states=0, mc_transitions=0,
                        trace_states=0, samples=[])
        self.violations = []
        self.known = []
        self.nviol = 0

    @property
    def thorough(self):
        return self.tier == "thorough"

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, s):
        if len(self.cov["samples"]) < 6:
            self.cov["samples"].append(s)

    # ------------------------------------------------------------------ verdicts
    def violation(self, what, detail):
        """detail: JSON-able description that replays the finding."""
        k = known_match(self.prop, detail)
        if k:
            if k not in self.known:
                self.known.append(k)
            return
        self.nviol += 1
        if len(self.violations) >= 5:
            return
        d = os.path.join(B.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, what=what, **detail), f, indent=1)
        self.violations.append((what, p))

    def finish(self, level, assumptions=()):
        c = self.cov
        c["states"] = c["mc_states"] + c["trace_states"]
        c["transitions"] = c["mc_transitions"] + c.pop("trace_transitions", 0)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level,
                  coverage=c, assumptions=list(assumptions),
                  wall_s=round(time.time() - self.t0, 2), violations=self.nviol)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, p in self.violations:
            print("  %s" % what)
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        print("%s %s: %d executions, %d traces validated, %d+%d states, %.1fs: %s" % (
            self.prop, self.tier, c["executions"], c["traces_validated_against_impl"],
            c["mc_states"], c["trace_states"], time.time() - self.t0,
            "VIOLATED" if self.violations else "ok"))
        return 1 if self.violations else 0

def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])

def known_match(prop, detail):
    for k in known_findings():
        if prop in k["properties"] and all(detail.get(f) == v for f, v in k["match"].items()):
            return k["what"]
    return None

# ---------------------------------------------------------------------- drivers
def run_driver(ctx, driver, progs, runs, wall, opts=(), shards=None, seq=False, timeout=10):
    """Runs every program under `runs` schedules (or until `wall` seconds are over).
    Returns the distinct executions."""
    exe = os.path.join(B.BUILD, driver, driver)
    pf = os.path.join(ctx.work, "progs-%s-%d" % (driver, len(os.listdir(ctx.work))))
    with open(pf, "w") as f:
        f.write("\n".join(progs) + "\n")
    n = len(progs)
    shards = shards or NCPU
    jobs = []
    # with few programs split the runs by seed, otherwise split the programs
    if n >= shards * 2:
        step = (n + shards - 1) // shards
        for i in range(0, n, step):
            jobs.append((i, min(n, i + step), ctx.seed, runs))
    else:
        for i in range(shards):
            jobs.append((0, n, ctx.seed + 1000003 * i, max(1, runs // shards)))
    def one(j):
        a, b, seed, r = j
        out = pf + ".out.%d.%d" % (a, seed)
        cmd = [exe, "--progs", pf, "--out", out, "--first", str(a), "--last", str(b),
               "--seed", str(seed), "--runs", str(r), "--wall", str(wall),
               "--timeout", str(timeout)] + list(opts) + (["--seq"] if seq else [])
        p = subprocess.run(cmd, capture_output=True, text=True, cwd=ctx.work)
        if p.returncode != 0:
            raise CheckError("driver %s: exit %d %s" % (driver, p.returncode, p.stderr[-2000:]))
        res = []
        for l in open(out):
            d = json.loads(l)
            if d.get("summary"):
                res.append(d)
            else:
                d["seed"] = seed
                res.append(d)
        os.unlink(out)
        return res
    out, seen, ex = [], set(), 0
    with ThreadPoolExecutor(shards) as pool:
        for res in pool.map(one, jobs):
            for d in res:
                if d.get("summary"):
                    ex += d["executed"]
                    continue
                key = hashlib.sha1((str(d["prog"]) + d["status"] + json.dumps(d["ev"])).encode()).digest()
                if key in seen:
                    continue
                seen.add(key)
                out.append(d)
    ctx.cov["executions"] += ex
    ctx.cov["programs"] += n
    bad = [d for d in out if d["status"] == "driver-error"]
    if bad:
        raise CheckError("driver error in %s: %s" % (driver, progs[bad[0]["prog"]]))
    return out

def abnormal(ctx, driver, progs, execs, what="the run ended abnormally"):
    """Reports executions that crashed, hung or livelocked; returns the others."""
    ok = []
    for d in execs:
        if d["status"] == "ok":
            ok.append(d)
        elif d["status"] in ("logfull",):
            raise CheckError("log full: " + progs[d["prog"]])
        else:
            ctx.violation("%s: %s in program %s" % (what, d["status"], progs[d["prog"]]),
                          dict(driver=driver, program=progs[d["prog"]], seed=d["seed"],
                               run=d["run"], status=d["status"], ev=d["ev"][-40:]))
    return ok

# ---------------------------------------------------------------------- TLC
RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")

def tlc(spec, cfg, env=None, workers=1, meta=None, timeout=800, xmx="3g", extra=()):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["timeout", str(int(timeout)), "java", "-Xmx" + xmx, "-Xss64m",
           "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-cp", CP, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", cfg, *extra, spec]
    p = subprocess.run(cmd, capture_output=True, text=True, cwd=SPECS, env=e)
    return p.returncode, p.stdout + p.stderr

def tlc_counts(out):
    m = RE_STATES.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def lookahead(ev):
    """nx[i][t]: the first event of thread t from i on (1-based, 0: none); dr[e]: what is run by
    drain(e) calls. Lets the specification leave behaviours that cannot match early."""
    nt = max((e["t"] for e in ev), default=0) + 1
    nx, cur = [], [0] * nt
    for i in range(len(ev), 0, -1):
        cur[ev[i - 1]["t"]] = i
        nx.append(list(cur))
    nx.reverse()
    dr, stack, kinds = [[], []], {}, [set(), set()]
    for i, e in enumerate(ev, 1):
        st = stack.setdefault(e["t"], [])
        if e["k"] == "call" and e["op"] in ("mkstub", "mkproxy") and e["b"] in (1, 2):
            kinds[e["b"] - 1].add(e["op"])
        if e["k"] in ("call", "begin"):
            # (what a handler leaves behind, such as an answer, is run there too: only server-side
            # things come from a server's executor)
            if (e["k"] == "begin" and st and st[-1][0] == "drain" and st[-1][1] in (1, 2)
                    and (e["op"] in ("handler", "heard")) == ("mkstub" in kinds[st[-1][1] - 1])):
                dr[st[-1][1] - 1].append([i, e["op"], e["p"], e["a"], e["b"]])
            st.append((e["op"], e["p"]))
        elif e["k"] in ("ret", "end") and st:
            st.pop()
    return dict(nx=nx, dr=dr, pure=[len(k) < 2 for k in kinds])

def check_traces(ctx, spec, traces, env=None, max_shard=1500, timeout=None):
    """Validates executions against specs/<spec>.tla; returns [(trace, position)] of the rejected.
    A shard that takes too long is split; single traces that do are counted as undecided."""
    if not traces:
        return []
    n = max(1, min(NCPU, (len(traces) + 39) // 40))
    per = min((len(traces) + n - 1) // n, max_shard)
    def split(l, k):        # interleaved, so that shards are of similar cost
        return [x for x in (l[i::k] for i in range(k)) if x]
    limit = timeout or ctx.scale(150, 900)
    end = ctx.t0 + ctx.scale(700, 3000)
    def run(sh, tmo, prune="1"):
        f = os.path.join(ctx.work, "tr-%s-%d.json" % (spec, random.randrange(1 << 60)))
        with open(f, "w") as o:
            for d in sh:
                o.write(json.dumps(dict(ev=d["ev"], **lookahead(d["ev"]), **d.get("extra", {}))) + "\n")
        e = dict(env or {}, TRACES=f, PRUNE=prune)
        rc, out = tlc(spec + ".tla", spec + ".cfg", e, meta=f + ".meta", timeout=tmo)
        shutil.rmtree(f + ".meta", ignore_errors=True)
        m = re.search(r'<<\s*"REJECTED",\s*\{(.*?)\}\s*>>', out, re.S)
        if rc == 124:
            os.unlink(f)
            return None
        if rc != 0 or not m or "Model checking completed. No error" not in out:
            keep = os.path.join(B.BUILD, "tlc-error-%s.txt" % spec)
            open(keep, "w").write(out)
            shutil.copy(f, keep + ".json")
            raise CheckError("TLC failed on %s (see %s): %s" % (spec, keep, out[:1500]))
        rej = [(int(a), int(b)) for a, b in re.findall(r"<<(\d+),\s*(\d+)>>", m.group(1))]
        os.unlink(f)
        return [(sh[a - 1], b) for a, b in rej], tlc_counts(out)
    res, undecided = [], 0
    todo = split(traces, (len(traces) + per - 1) // per)
    with ThreadPoolExecutor(NCPU) as pool:
        while todo:
            again = []
            tmo = min(limit, end - time.time())
            if tmo < 5:
                undecided += sum(map(len, todo))
                break
            for sh, x in zip(todo, pool.map(lambda sh: run(sh, tmo), todo)):
                if x is not None:
                    res += x[0]
                    ctx.cov["trace_states"] += x[1][1]
                    ctx.cov["trace_transitions"] = ctx.cov.get("trace_transitions", 0) + x[1][0]
                elif len(sh) == 1:
                    undecided += 1
                else:
                    again += split(sh, 8 if len(sh) > 24 else len(sh))
            todo, limit = again, 40
        # without the look-ahead, which leaves behaviours earlier
        few = sorted(res, key=lambda x: len(x[0]["ev"]))[:16]
        for (d, p), x in zip(few, pool.map(lambda y: run([y[0]], 30, "0"), few)):
            if x is not None and not x[0]:
                print("note: look-ahead of %s wrong for seed %s run %s" % (spec, d["seed"], d["run"]), file=sys.stderr)
                ctx.cov["lookahead_wrong"] = ctx.cov.get("lookahead_wrong", 0) + 1
                res = [r for r in res if r[0] is not d]
            elif x:
                res[[id(r[0]) for r in res].index(id(d))] = x[0][0]
    if undecided:
        ctx.cov["traces_undecided"] = ctx.cov.get("traces_undecided", 0) + undecided
        if undecided * 2 > len(traces):
            raise CheckError("%d of %d traces of %s could not be decided in time" % (undecided, len(traces), spec))
    ctx.cov["traces_validated_against_impl"] += len(traces) - len(res) - undecided
    return res

def fmt(e):
    return "t%s %s %s(%s,%s,%s)%s" % (e.get("t"), e.get("k"), e.get("op"), e.get("p"),
                                      e.get("a"), e.get("b"), " = " + e["r"] if e.get("r") else "")

def report_rejected(ctx, driver, progs, rejected, what):
    rejected.sort(key=lambda x: len(x[0]["ev"]))
    for d, pos in rejected:
        ev = d["ev"][pos - 1] if pos <= len(d["ev"]) else {}
        ctx.violation("%s: program %s: no behaviour of the specification has event %d: %s" % (
            what, progs[d["prog"]], pos, fmt(ev)),
            dict(driver=driver, program=progs[d["prog"]], seed=d["seed"], run=d["run"],
                 status=d["status"], position=pos, event=ev, ev=d["ev"]))

def conform(ctx, driver, spec, progs, runs, wall, opts=(), seq=False, max_traces=None,
            what="not a behaviour of the specification", extra=None, timeout=10):
    """Programs -> executions of the real code -> TLC trace validation."""
    execs = run_driver(ctx, driver, progs, runs, wall, opts, seq=seq, timeout=timeout)
    ok = abnormal(ctx, driver, progs, execs)
    if max_traces and len(ok) > max_traces:
        # keep every program represented; prefer short traces, deterministically
        by = {}
        for d in ok:
            by.setdefault(d["prog"], []).append(d)
        r = random.Random(ctx.seed)
        for v in by.values():
            r.shuffle(v)
        ok, i = [], 0
        while len(ok) < max_traces and any(by.values()):
            for k in sorted(by):
                if by[k] and len(ok) < max_traces:
                    ok.append(by[k].pop())
    if extra:
        for d in ok:
            d["extra"] = extra(d)
    rej = check_traces(ctx, spec, ok)
    report_rejected(ctx, driver, progs, rej, what)
    for d in ok[:2]:
        ctx.sample(dict(program=progs[d["prog"]], events=[fmt(e) for e in d["ev"][:40]]))
    return ok

def model_check(ctx, spec, cfg=None, env=None, workers=None, timeout=600, xmx="6g"):
    """Exhaustive exploration of the specification itself."""
    meta = os.path.join(ctx.work, "mc-" + (cfg or spec))
    rc, out = tlc(spec + ".tla", (cfg or spec) + ".cfg", env, workers or NCPU, meta, timeout, xmx)
    shutil.rmtree(meta, ignore_errors=True)
    gen, dist = tlc_counts(out)
    if rc != 0 or "Model checking completed. No error" not in out:
        keep = os.path.join(B.BUILD, "tlc-error-%s.txt" % (cfg or spec))
        open(keep, "w").write(out)
        raise CheckError("the specification %s does not satisfy its properties (see %s): %s" % (
            cfg or spec, keep, "\n".join(l for l in out.splitlines() if "Error" in l)[:1000]))
    ctx.cov["mc_states"] += dist
    ctx.cov["mc_transitions"] += gen
    return out
