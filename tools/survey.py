"""survey.py MODULE DRIVER SPEC [runs] [maxtraces] [nrand] [--only i,j]: every program whose executions are not accepted (development aid)."""
import importlib, os, sys, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, prog
a = [x for x in sys.argv[1:] if not x.startswith("--")]
m = importlib.import_module(a[0]); drv, spec = a[1], a[2]
runs = int(a[3]) if len(a) > 3 else 100
mt = int(a[4]) if len(a) > 4 else 1500
nr = int(a[5]) if len(a) > 5 else 0
ctx = vlib.Ctx("C00", "quick") if hasattr(vlib, "Ctx") else None
ps = list(m.FIX)
if nr:
    r = random.Random(ctx.seed * 31)
    ps = [m.gen(r) for _ in range(nr)]
for x in sys.argv:
    if x.startswith("--only="):
        ps = [ps[int(i)] for i in x[7:].split(",")]
progs = [prog.sx(p) for p in ps]
vlib.B.build(drv)
ex = vlib.run_driver(ctx, drv, progs, runs, 120, ["--ptime", "0.01", "--pspurious", "0.3"] + os.environ.get("OPTS", "").split())
print("executions", len(ex))
by = {}
ok = []
for d in ex:
    if d["status"] == "ok": ok.append(d)
    else: by.setdefault(d["prog"], []).append((d, len(d["ev"]), d["status"]))
per = {}
sel = []
lim = max(1, mt // len(progs))
for d in ok:
    per[d["prog"]] = per.get(d["prog"], 0) + 1
    if per[d["prog"]] <= lim: sel.append(d)
for d, pos in vlib.check_traces(ctx, spec + "Trace", sel):
    by.setdefault(d["prog"], []).append((d, pos, "rejected"))
print("validated", len(sel), "states", ctx.cov["trace_states"])
for k in sorted(by):
    l = sorted(by[k], key=lambda x: x[1])
    d, pos, w = l[0]
    print("=== prog %d: %d of %d; %s at %d: %s" % (k, len(l), per.get(k, 0), w, pos, progs[k]))
    for j, e in enumerate(d["ev"][:pos + 3], 1):
        print("   %s %d %s n=%s" % (">>" if j == pos else "  ", j, vlib.fmt(e), e.get("n")))
