"""C21: serialisation (specs/Serial.tla). The specification lists values for every shape of the
driver (MCSerial, checked there) and says what every stream must look like and what can be read
from each of its prefixes (SerialTrace)."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib, build as B

def sx(v):
    return str(v) if isinstance(v, int) else "(" + " ".join(map(sx, v)) + ")"

def rnd(r, s, depth=0, big=False):
    k = s["k"]
    n = lambda: r.choice([0, 1, 1, 2, 3] if depth else [0, 1, 2, 3, 5, 8]) if not big else r.choice([200, 256, 300])
    byte = lambda: r.choice([0, 1, 65, 127, 128, 255, r.randrange(256)])
    if k == "bool": return [r.randint(0, 1)]
    if k == "num": return [byte() for _ in range(s["w"])]
    if k == "str": return [byte() for _ in range(n())]
    if k in ("seq", "set", "bag", "map"):
        return [rnd(r, s["e"], depth + 1) for _ in range(n())]
    if k == "tup": return [rnd(r, e, depth + 1, big and i == 0) for i, e in enumerate(s["es"])]
    if k == "ptr": return [] if r.random() < 0.3 else [rnd(r, s["e"], depth + 1, big)]
    i = r.randrange(len(s["es"]))
    return [[i], rnd(r, s["es"][i], depth + 1, big)]

def run(ctx, exe, lines):
    """Feeds the lines to the driver; a line it dies on is reported."""
    out = []
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0")
    while lines:
        try:
            p = subprocess.run([exe], input="\n".join(lines) + "\n", capture_output=True, text=True, env=env, timeout=300)
            rc, txt, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as e:
            rc, txt, err = -1, (e.stdout or b"").decode(), "no end"
        got = txt.splitlines()
        if txt and not txt.endswith("\n"):
            got.pop()
        out += list(zip(lines, got))
        if rc == 0 and len(got) == len(lines):
            break
        bad = lines[len(got)] if len(got) < len(lines) else "?"
        why = next((l for l in err.splitlines() if "ERROR" in l or "runtime error" in l), err[:200] or "exit %d" % rc)
        ctx.violation("the driver died: %s; input %s" % (why, bad[:200]), dict(input=bad, error=err[:3000]))
        if len(ctx.violations) >= 5:
            break
        lines = lines[len(got) + 1:]
    return out

def check(ctx, prop):
    exe = B.build("serial")
    sf = os.path.join(ctx.work, "shapes")
    open(sf, "w").write(subprocess.run([exe, "--shapes"], capture_output=True, text=True).stdout)
    shapes = [json.loads(l) for l in open(sf)]
    out = vlib.model_check(ctx, "MCSerial", env=dict(SHAPES=sf))
    cases = [(int(t), json.loads(v)) for t, v in
             re.findall(r'<<\s*"CASE",\s*"(\d+)",\s*"([^"]*)"\s*>>', out)]
    if len({t for t, _ in cases}) != len(shapes):
        raise vlib.CheckError("cases missing for some shapes")
    r = random.Random(ctx.seed)
    val = lambda t, v: "((%d) %s)" % (t, sx(v))
    lines = []
    for i, (t, v) in enumerate(cases):
        for kind in (range(5) if ctx.thorough else (0, 1 + i % 4)):
            lines.append("((0) (%d) %s)" % (kind, val(t, v)))
    by = {}
    for t, v in cases:
        by.setdefault(t, []).append(v)
    ts = list(range(len(shapes)))
    def one(t):
        return val(t, r.choice(by[t]) if r.random() < 0.4 else rnd(r, shapes[t]))
    for _ in range(ctx.scale(1200, 12000)):
        lines.append("((0) (%d) %s)" % (r.randrange(5), " ".join(one(r.choice(ts)) for _ in range(r.choice([1, 1, 2, 3, 4])))))
    for t in ts * ctx.scale(1, 4):          # long strings and containers
        lines.append("((0) (%d) %s)" % (r.randrange(5), val(t, rnd(r, shapes[t], 0, True))))
    b = lambda n: [r.randrange(256) for _ in range(n)]
    for i in range(ctx.scale(240, 2400)):
        pk = i % 3
        s = lambda: b(r.choice([0, 1, 3, 12]))
        pl = [] if pk == 0 else [s(), [r.randrange(8)]] if pk == 1 else [s(), s()]
        lines.append("((1) %s)" % " ".join(map(sx, [s(), s(), b(1), b(8), s(), b(2), [pk], pl])))
    n = vlib.NCPU
    with ThreadPoolExecutor(n) as pool:
        res = sum(pool.map(lambda k: run(ctx, exe, lines[k::n]), range(n)), [])
    ctx.cov["executions"] += len(res)
    ctx.cov["programs"] += len(lines)
    num, st = (lambda w: dict(k="num", w=w)), dict(k="str")
    tup = lambda *es: dict(k="tup", es=list(es))
    msg = [st, st, num(1), num(8), tup(st, num(2)), num(1)]
    pls = [[], [st, num(1)], [dict(k="ptr", e=tup(st, st))]]
    objs = []
    for l, o in res:
        d = json.loads(o)
        d["s"] = msg + pls[d["pk"]] if d["kind"] == 9 else [shapes[t] for t in d["t"]]
        objs.append((l, d))
    for l, d in objs[:2]:
        ctx.sample(dict(input=l[:300], bytes=d["bytes"][:80]))
    def validate(k):
        part = objs[k::n * 2]
        f = os.path.join(ctx.work, "lines-%d" % k)
        with open(f, "w") as o:
            for _, d in part:
                o.write(json.dumps(d) + "\n")
        rc, out = vlib.tlc("SerialTrace.tla", "SerialTrace.cfg", dict(TRACES=f), meta=f + ".meta")
        if rc != 0 or "Model checking completed. No error" not in out:
            keep = os.path.join(B.BUILD, "tlc-error-Serial.txt")
            open(keep, "w").write(out)
            raise vlib.CheckError("TLC failed on SerialTrace (see %s): %s" % (keep, out[-1500:]))
        gen, dist = vlib.tlc_counts(out)
        return [(part[int(i) - 1], w) for i, w in re.findall(r'<<"REJECTED",\s*(\d+),\s*"(\w+)">>', out)], len(part), gen, dist
    what = dict(value="the value shown is none of its shape", bytes="not the bytes of the value", size="announced size is not the number of bytes",
                cuts="cut points", read="what can be read from some prefix is wrong", wrong="another value was read back")
    bad = []
    with ThreadPoolExecutor(n) as pool:
        for rej, tot, gen, dist in pool.map(validate, range(n * 2)):
            bad += rej
            ctx.cov["traces_validated_against_impl"] += tot - len(rej)
            ctx.cov["trace_states"] += dist
            ctx.cov["trace_transitions"] = ctx.cov.get("trace_transitions", 0) + gen
    bad.sort(key=lambda x: len(x[0][0]))
    for (l, d), w in bad:
        ctx.violation("%s: %s" % (what[w], l[:200]), dict(input=l, why=w, output={k: v for k, v in d.items() if k != "s"}))
