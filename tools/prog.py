"""Programs in the common shape (harness/prog.h, specs/Calls.tla) and the standard check."""
import json, os, random
import vlib

def sx_op(o):
    return "(%s %s)" % (o[0], " ".join(str(x) for x in o[1:]))

def P(threads, bodies=None, setup=(), post=(), throws=()):
    pad = lambda ops: [tuple(o) + (0,) * (4 - len(o)) for o in ops]
    return dict(threads=[pad(t) for t in threads], setup=pad(setup), post=pad(post),
                bodies={k: pad(v) for k, v in (bodies or {}).items()}, throws=list(throws))

def sx(p):
    s = "(prog"
    if p["bodies"]:
        s += " (bodies %s)" % " ".join("(%d %s)" % (k, " ".join(map(sx_op, v))) for k, v in sorted(p["bodies"].items()))
    if p["throws"]:
        s += " (throws %s)" % " ".join(map(str, p["throws"]))
    if p["setup"]:
        s += " (setup %s)" % " ".join(map(sx_op, p["setup"]))
    s += " (threads %s)" % " ".join("(%s)" % " ".join(map(sx_op, t)) for t in p["threads"])
    if p["post"]:
        s += " (post %s)" % " ".join(map(sx_op, p["post"]))
    return s + ")"

def mcprog(p):
    m = max(list(p["bodies"]) + [0])
    return json.dumps(dict(threads=[[list(o) for o in t] for t in p["threads"]],
                           bodies=[[list(o) for o in p["bodies"].get(k, [])] for k in range(1, m + 1)],
                           throws=p["throws"], setup=[list(o) for o in p["setup"]]))

def size(p):
    return (sum(map(len, p["threads"])) + sum(map(len, p["bodies"].values())) + len(p["setup"]) / 3)

def mc(ctx, spec, progs, limit, timeout=None, xmx="6g", env=None):
    sel = [p for p in progs if size(p) <= limit and not p["post"]]
    if not sel:
        raise vlib.CheckError("no program small enough for " + spec)
    pf = os.path.join(ctx.work, "mc-%s.json" % spec)
    with open(pf, "w") as f:
        f.write("\n".join(map(mcprog, sel)) + "\n")
    ctx.cov["mc_programs"] = ctx.cov.get("mc_programs", 0) + len(sel)
    return vlib.model_check(ctx, "MC" + spec, env=dict(env or {}, PROGS=pf), timeout=timeout or ctx.scale(200, 800), xmx=xmx)

def standard(ctx, driver, spec, fix, gen, nrand=(60, 400), runs_fix=(1000, 16000), runs_rand=(120, 1200),
             traces=(1500, 16000), opts=("--ptime", "0.01", "--pspurious", "0.3"), mclimit=(7, 9),
             timeout=10, mcspec=True, rnd_filter=None):
    """1. the specification satisfies its properties (all behaviours of the fixed programs);
    2. executions of the real code, for fixed and random programs, are behaviours of it."""
    i = 1 if ctx.thorough else 0
    vlib.B.build(driver)
    if mcspec:
        mc(ctx, spec, fix, mclimit[i])
    r = random.Random(ctx.seed * 7919 + sum(map(ord, ctx.prop)))
    rnd = [gen(r) for _ in range(nrand[i])]
    vlib.conform(ctx, driver, spec + "Trace", [sx(p) for p in fix], runs_fix[i], ctx.scale(25, 150),
                 list(opts), max_traces=traces[i], timeout=timeout)
    if rnd:
        vlib.conform(ctx, driver, spec + "Trace", [sx(p) for p in rnd], runs_rand[i], ctx.scale(20, 150),
                     list(opts), max_traces=traces[i], timeout=timeout)
