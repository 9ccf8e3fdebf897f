"""Programs and checks for processors (specs/Proc.tla): C01 - C04, C10 (executors)."""
import json, os, random
import vlib

# op: (name, p, a, b) as in the specification
def sx_op(o):
    n, p, a, b = o
    if n in ("run", "stop", "reuse", "stopped", "pending", "drop", "launch", "stopwait"):
        return "(%s %d)" % (n, p)
    if n in ("tstop", "me"):
        return "(%s)" % n
    if n == "wait": return "(wait %d)" % a
    if n == "waitfor": return "(waitfor %d %d)" % (a, b)
    if n in ("disc", "reconn", "isconn"): return "(%s %d)" % (n, a)
    if n == "wpost": return "(wpost %d %d %d %d)" % (p, a, b // 100, b % 100)
    if n in ("post", "connect", "wexec", "emit", "oset", "sconn", "sdisc"): return "(%s %d %d %d)" % (n, p, a, b)
    return "(%s %d %d)" % (n, p, a)

def sx(prog):
    s = "(prog (procs %d%s)" % (prog["procs"], " same" if prog.get("same") else "")
    s += " (tasks %s)" % " ".join("(%d %s)" % (k, " ".join(map(sx_op, v)))
                                  for k, v in sorted(prog["bodies"].items()))
    if prog.get("throws"):
        s += " (throws %s)" % " ".join(map(str, prog["throws"]))
    ops = [o for t in prog["threads"] for o in t] + [o for b in prog["bodies"].values() for o in b] + prog.get("post", [])
    if any(o[0] in ("launch", "stopwait") for o in ops):
        s += " (async)"
    if prog.get("setup"):
        s += " (setup %s)" % " ".join(map(sx_op, prog["setup"]))
    s += " (threads %s)" % " ".join("(%s)" % " ".join(map(sx_op, t)) for t in prog["threads"])
    if prog.get("post"):
        s += " (post %s)" % " ".join(map(sx_op, prog["post"]))
    return s + ")"

def mcprog(prog):
    m = max(list(prog["bodies"]) + [1])
    return json.dumps(dict(threads=[[list(o) for o in t] for t in prog["threads"]],
                           bodies=[[list(o) for o in prog["bodies"].get(k, [])] for k in range(1, m + 1)],
                           throws=prog.get("throws", []),
                           setup=[list(o) for o in prog.get("setup", [])]))

def P(threads, bodies={}, procs=1, throws=(), post=(), setup=(), same=False):
    return dict(threads=[list(t) for t in threads], bodies=dict(bodies), procs=procs,
                throws=list(throws), post=list(post), setup=list(setup), same=same)

run = lambda p=1: ("run", p, 0, 0)
stop = lambda p=1: ("stop", p, 0, 0)
reuse = lambda p=1: ("reuse", p, 0, 0)
runfor = lambda ms, p=1: ("runfor", p, ms, 0)
runonce = lambda ms, p=1: ("runonce", p, ms, 0)
ex = lambda k, p=1: ("exec", p, k, 0)
exa = lambda k, p=1: ("execa", p, k, 0)
tex = lambda k: ("texec", 0, k, 0)
texa = lambda k: ("texeca", 0, k, 0)
wex = lambda k, h, p=1: ("wexec", p, k, h)
wexv = lambda k, p=1: ("wexecv", p, k, 0)
wait = lambda h: ("wait", 0, h, 0)
waitfor = lambda h, ms: ("waitfor", 0, h, ms)
tstop = ("tstop", 0, 0, 0)
me = ("me", 0, 0, 0)
pending = lambda p=1: ("pending", p, 0, 0)
stopped = lambda p=1: ("stopped", p, 0, 0)
post = lambda m, v, p=1: ("post", p, m, v)
wpost = lambda m, v, h, p=1: ("wpost", p, m, v * 100 + h)
conn = lambda m, c, p=1: ("connect", p, m, c)
disc = lambda c: ("disc", 0, c, 0)
reconn = lambda c: ("reconn", 0, c, 0)
isconn = lambda c: ("isconn", 0, c, 0)
discall = lambda m, p=1: ("discall", p, m, 0)
connected = lambda m, p=1: ("connected", p, m, 0)
drop = lambda p=1: ("drop", p, 0, 0)
launch = lambda p=1: ("launch", p, 0, 0)
stopwait = lambda p=1: ("stopwait", p, 0, 0)
E = lambda n, k, p=1: (n, p, k, 0)

def SC(c, kind, o=1, p=1): return ("sconn", p if kind in (1, 2, 3) else 0, c, 10 * kind + o)
def EM(v, o=1): return ("emit", 0, o, v)
def OS(v): return ("oset", 0, 0, v)
def SD(c): return ("sdisc", 0, c, 0)

FIX = {
 "C10": [
  P([[run()], [SC(1, 1), SC(2, 2), SC(3, 3), EM(1), EM(2)]], {1: [me], 2: [me], 3: [me]}),
  P([[run()], [EM(1), EM(2)], [EM(3)]], setup=[SC(1, 2), SC(2, 0)]),
  P([[run()], [EM(1)], [EM(2)]], setup=[SC(1, 3), SC(2, 2)]),
  P([[run()], [EM(1), EM(2)], [exa(1), exa(2)]], setup=[SC(5, 3), SC(6, 1), SC(7, 4)]),
  P([[run()], [EM(1), SD(5), EM(2), SD(5)]], {5: [EM(9, 2)]}, setup=[SC(5, 2), SC(6, 3, 2), SC(7, 1, 2)]),
  P([[run(1)], [run(2)], [EM(1)]], {5: [me, EM(2, 2)]}, 2, setup=[SC(5, 3, 1, 1), SC(6, 3, 2, 2), SC(7, 2, 2, 1)]),
  P([[exa(1), runonce(5)]], {1: [EM(1)], 5: [EM(2, 2)]}, setup=[SC(5, 1), SC(6, 2), SC(7, 3), SC(8, 1, 2)]),
  P([[run()], [EM(1), EM(2)], [stop()]], setup=[SC(5, 3), SC(6, 0)]),
  P([[run()], [EM(1)], [stop(), reuse(), EM(2)]], setup=[SC(5, 2), SC(6, 1)]),
  P([[SC(1, 3), SC(2, 2), SC(3, 1), SC(4, 4), drop(), EM(1), E("exasync", 9), E("exdef", 9), E("exblock", 9), SD(1), EM(2)]]),
  P([[SC(1, 2), EM(1), EM(2), pending(), drop(), EM(3)]]),
  P([[EM(1), runonce(5), EM(2), runonce(5), runonce(5)]], {5: [SD(6)]}, setup=[SC(5, 0), SC(6, 2), SC(7, 1)]),
  P([[run()], [SC(5, 2, 3), OS(1), OS(1), OS(2), SC(6, 3, 3), OS(3), SD(5), OS(4)]]),
  P([[run()], [OS(1), OS(2)], [OS(2), OS(1)]], setup=[SC(5, 2, 3), SC(6, 0, 3)]),
  P([[run()], [OS(1)], [SC(5, 3, 3), OS(2)]], setup=[SC(6, 1, 3)]),
  P([[run()], [E("exblock", 1), E("exasync", 2)], [EM(1)]], {1: [me]}, setup=[SC(5, 3), SC(6, 2)]),
  P([[launch(), SC(5, 3), EM(1), stopwait(), EM(2)], [EM(3)]]),
 ],
 "C01": [
  P([[run()], [exa(1), exa(2), exa(3)]]),
  P([[run()], [exa(1), exa(2)], [exa(3), exa(4)]]),
  P([[run()], [ex(1), ex(2)], [ex(3)]], {1: [ex(4), exa(5), tex(6)], 4: [texa(7)]}),
  P([[run()], [exa(1)]], {1: [tex(2), texa(3), me], 2: [ex(4)], 3: [me]}),
  P([[exa(1), exa(2), runonce(5), runonce(5), runonce(5), me], [exa(3)]]),
  P([[runfor(20), runonce(0)], [exa(1), exa(2)]], {1: [exa(3)]}),
  P([[runfor(0), exa(1), runfor(0), runfor(5)]], {1: [exa(2)]}),
  P([[run(1)], [run(2)], [ex(1, 1), ex(4, 2)]], {1: [exa(2, 2), ex(3, 1)], 2: [exa(5, 1)], 4: [ex(6, 1)]}, 2),
  P([[run()], [run()], [exa(1), exa(2), exa(3)]]),
  P([[exa(1), runonce(5, 1)]], {1: [exa(2, 2), runonce(5, 2), ex(3, 1), ex(4, 2), me]}, 2),
  P([[launch()], [exa(1), ex(2)]], {1: [ex(3), me], 2: [me]}),
  P([[exa(1), runonce(5, 1), runonce(5, 2)]], {1: [ex(2, 2), ex(3, 1), me]}, 2, same=True),
  P([[run(1)], [run(2)], [ex(1, 1)]], {1: [ex(2, 2)], 2: [me, ex(3, 1), exa(4, 2)]}, 2, same=True),
  P([[E("exdef", 1), E("exasync", 2)], [run()]], {1: [E("exdef", 3), E("exasync", 4)]}),
  P([[("will", 1, 1, 0), ("willa", 1, 2, 0)], [run()]], {1: [("will", 1, 3, 0), ("willa", 1, 4, 0)]}),
 ],
 "C02": [
  P([[run()], [stop()]]),
  P([[run()], [exa(1), stop()]]),
  P([[run()], [exa(1)], [stop()]]),
  P([[run()], [stop()], [stop()]]),
  P([[run()], [exa(1), exa(2)], [stop(), reuse(), exa(3)]]),
  P([[run(), reuse(), runonce(10)], [stop()], [exa(1), exa(2)]]),
  P([[exa(1), exa(2), stop(), stopped(), pending(), exa(3), reuse(), stopped(), pending(), exa(4), runonce(5), runonce(5)]]),
  P([[run()], [exa(1), exa(2)]], {1: [tstop, exa(3)]}),
  P([[runfor(1000)], [stop()]]),
  P([[runfor(1000)], [exa(1), stop()]]),
  P([[runonce(1000)], [stop()]]),
  P([[run()], [stop(), reuse()]]),
  P([[run()], [stop(), reuse(), exa(1)]]),
  P([[run(), run()], [stop(), reuse(), stop()]]),
  P([[run()], [run()], [stop()]]),
  P([[run()], [ex(1), stop()], [exa(2), reuse(), exa(3)]]),
  P([[stop(), run(), reuse(), exa(1), runonce(5)], [exa(2)]]),
  P([[launch(), exa(1), stopwait(), exa(2), reuse(), exa(3), launch(), stopwait()]], {1: [exa(4)]}),
  P([[launch(), stopwait()], [exa(1), stop()]]),
  P([[run(1)], [run(2)], [stop(1), stop(2)]], procs=2),
 ],
 "C03": [
  P([[run()], [wex(1, 1), wait(1)]]),
  P([[exa(1), runonce(5, 1)]], {1: [exa(2, 2), runonce(5, 2), wex(3, 1, 1), wait(1)]}, 2),
  P([[exa(1), runonce(5, 1), runonce(5, 2)]], {1: [exa(2, 2), runonce(5, 2), wex(5, 2, 2)], 2: [wex(4, 1), wait(1)]}, 2),
  P([[exa(1), runonce(5, 1), runonce(5, 2), waitfor(1, 5)]], {1: [wex(2, 1, 2)], 2: [me]}, 2, same=True),
  P([[run(1)], [run(2)], [wex(1, 1, 1), wait(1)]], {1: [wex(2, 2, 2)]}, 2, same=True),
  P([[run()], [wex(1, 1), wait(1), stop()], [wex(2, 2), wait(2)]]),
  P([[run()], [wex(1, 1), wait(1)], [stop()]]),
  P([[run()], [wexv(1)], [stop()]]),
  P([[run()], [wexv(1), wexv(2)]], {1: [wexv(3), wex(4, 1), wait(1)]}),
  P([[run()], [wex(1, 1), wait(1)]], throws=[1]),
  P([[run()], [exa(1)]], {1: [wex(2, 1), wait(1), wex(3, 2), waitfor(2, 0)]}, throws=[2]),
  P([[wex(1, 1), waitfor(1, 10), stop(), waitfor(1, 0), wait(1), wex(2, 2), wait(2)]]),
  P([[wex(1, 1), wex(2, 2), waitfor(1, 5), runonce(5), waitfor(1, 0), waitfor(2, 0), drop(), waitfor(2, 0), wait(1), wait(2)]]),
  P([[run()], [conn(1, 5), wpost(1, 7, 1), wait(1), stop()], [wpost(1, 8, 2), wait(2)]]),
  P([[conn(1, 5), exa(1), run()], [stop()]], {1: [wpost(1, 3, 1), waitfor(1, 0), wait(1)]}),
  P([[run(1)], [run(2)], [ex(1, 1)]], {1: [wex(2, 1, 2), wait(1)], 2: [wex(3, 2, 2), wait(2)]}, 2),
  P([[run(1)], [run(2)], [stop(2)], [wex(1, 1, 1), wait(1)]], {1: [wex(2, 2, 2), wait(2)]}, 2),
  P([[E("exblock", 1)], [run()], [E("exblock", 2)]], {1: [E("exblock", 3)]}),
  P([[E("exblock", 1)], [run()], [stop()]]),
  P([[("willb", 1, 1, 0)], [run()]], {1: [("willb", 1, 2, 0)]}),
  P([[wpost(1, 1, 1), wait(1), wex(1, 2), wait(2)], [run(), reuse(), run()], [stop()]]),
  P([[launch(), wex(1, 1), stopwait(), wait(1)]]),
 ],
 "C04": [
  P([[conn(1, 5), conn(1, 6), conn(2, 7), post(1, 1), post(2, 2), post(3, 3), run()], [post(1, 4)]]),
  P([[conn(1, 5), post(1, 1), disc(5), post(1, 2), connected(1), reconn(5), connected(1), post(1, 3), runonce(5), runonce(5), runonce(5)]]),
  P([[conn(1, 5), conn(1, 6), post(1, 1), runonce(5), post(1, 2), runonce(5)]], {5: [disc(6)]}),
  P([[conn(1, 5), conn(1, 6), conn(1, 7), post(1, 1), runonce(5), post(1, 2), runonce(5), connected(1)]], {5: [disc(5)], 6: [disc(7)]}),
  P([[conn(1, 5), conn(1, 6), discall(1), connected(1), isconn(5), post(1, 1), conn(1, 7), post(1, 2), runonce(5), runonce(5)]]),
  P([[conn(1, 5), conn(2, 6), discall(1), connected(1), connected(2), post(2, 1), runonce(5)]]),
  P([[conn(1, 5), conn(2, 6), disc(5), discall(2), connected(1), connected(2), reconn(5), isconn(5)]]),
  P([[run()], [post(1, 1), post(1, 2)], [post(1, 3), post(2, 4)]], setup=[conn(1, 5), conn(1, 6)]),
  P([[run()], [post(1, 1), disc(5), post(1, 2)]], setup=[conn(1, 5)]),
  P([[run()], [post(1, 1)], [disc(6), post(1, 2), reconn(6)]], setup=[conn(1, 5), conn(1, 6)]),
  P([[run()], [post(1, 1), conn(1, 7), post(1, 2)], [discall(1)]], setup=[conn(1, 5), conn(2, 6)]),
  P([[run()], [conn(2, 7), post(2, 1)], [disc(5), disc(6), discall(1)]], setup=[conn(1, 5), conn(2, 6)]),
  P([[conn(1, 5), conn(1, 6), disc(5), disc(6), connected(1), conn(1, 7), connected(1), post(1, 1), runonce(5), reconn(5), post(1, 2), runonce(5)]]),
  P([[conn(1, 5, 1), conn(1, 6, 2), post(1, 1, 1), post(1, 2, 2), runonce(5, 1), runonce(5, 2)]], {5: [post(1, 3, 2)]}, 2),
  P([[conn(1, 5), exa(1), run()], [stop(), post(1, 2), conn(2, 6), post(2, 1), reuse(), post(2, 3), runonce(5)]], {1: [post(1, 1)]}),
  P([[conn(1, 5), wpost(1, 1, 1), runonce(5), wait(1), disc(5), wpost(1, 2, 2), wait(2)]]),
  P([[conn(1, 5), conn(2, 6), post(1, 1), runonce(5), runonce(5), runonce(5)]], {5: [post(2, 2), discall(2), post(2, 3)]}),
  P([[conn(1, 5), conn(1, 6), conn(1, 7), conn(1, 8), post(1, 1), runonce(5), post(1, 2), runonce(5)]], {5: [disc(6), disc(7)], 8: [disc(5)]}),
 ],
}

def gen(prop, r):
    """A random program over the operations that matter for `prop`."""
    if prop == "C10": return gen_exec(r)
    nth = r.choice([1, 2, 2, 3])
    procs = r.choice([1, 1, 2])
    bodies, threads, setup = {}, [], []
    nested = r.random() < 0.4
    st = dict(k=0, h=0, c=20)
    pend = []
    def fresh(depth):
        st["k"] += 1
        k = st["k"]
        if k <= 12 and depth < 2 and r.random() < 0.45:
            bodies[k] = []          # reserve the number
            bodies[k] = body(depth + 1)
        return k
    conns = []
    def aop(depth, mine):
        p = r.randint(1, procs)
        x = r.random()
        if prop == "C01":
            c = r.choice(["exec", "execa", "execa", "exec"] + (["texec", "texeca", "me"] if depth else [])
                         + (["pending"] if not depth else []) + ["exdef", "exasync", "will", "willa"])
        elif prop == "C02":
            c = r.choice(["exec", "execa", "execa", "stop", "stop", "reuse", "stopped", "pending"]
                         + (["tstop", "texeca"] if depth else []))
        elif prop == "C03":
            c = r.choice(["wexec", "wexec", "wait", "waitfor", "wexecv", "exec", "exblock"]
                         + (["stop"] if x < 0.25 else []) + (["wpost"] if x < 0.5 else []))
        else:
            c = r.choice(["post", "post", "post", "connect", "disc", "reconn", "connected", "isconn", "wpost"]
                         + (["discall"] if x < 0.4 else []))
        if c in ("wexecv", "exblock", "wait") and depth and c != "wait":
            p = 1
        if c in ("exec", "execa", "exdef", "exasync", "will", "willa", "wexecv", "exblock"):
            # a blocking submission to another processor from inside a body may deadlock
            # legitimately; the specification knows, so it is allowed
            return (c, p, fresh(depth), 0)
        if c in ("texec", "texeca"): return (c, 0, fresh(depth), 0)
        if c in ("stop", "reuse", "stopped", "pending"): return (c, p, 0, 0)
        if c in ("tstop", "me"): return (c, 0, 0, 0)
        if c == "wexec":
            st["h"] += 1; h = st["h"]
            mine.append(h)
            return (c, p, fresh(depth), h)
        if c in ("wait", "waitfor"):
            if not mine: return ("me", 0, 0, 0)
            h = mine.pop(r.randrange(len(mine))) if c == "wait" else r.choice(mine)
            return ("wait", 0, h, 0) if c == "wait" else ("waitfor", 0, h, r.choice([0, 5, 50]))
        if c == "wpost":
            st["h"] += 1; mine.append(st["h"])
            return (c, p, r.choice([1, 1, 2]), st["h"] * 100 + st["h"])
        if c == "post":
            st["h"] += 1
            return (c, p, r.choice([1, 1, 2]), st["h"])
        if c == "connect":
            # handlers are created by thread-level operations only, and disconnected etc.
            # only after their creation in the same thread
            if depth: return ("isconn", 0, r.choice(conns), 0) if conns and False else ("me", 0, 0, 0)
            st["c"] += 1
            conns.append(st["c"]); mine_c.append(st["c"])
            return (c, p, r.choice([1, 1, 2]), st["c"])
        if c in ("disc", "reconn", "isconn"):
            if not mine_c: return ("me", 0, 0, 0)
            if depth and c == "reconn": c = "disc"
            return (c, 0, r.choice(mine_c), 0)
        if c in ("connected", "discall"):
            if depth and c == "discall": return ("connected", p, 1, 0)
            return (c, p, r.choice([1, 2]), 0)
        raise AssertionError(c)
    def body(depth):
        mine = []
        ops = [aop(depth, mine) for _ in range(r.choice([1, 1, 2]))]
        if procs == 2 and nested and prop != "C04":    # runs a processor from within
            ops.insert(r.randrange(len(ops) + 1), runonce(0, r.choice([1, 2, 2])))
        return ops
    mine_c = []
    def tail(ops):
        return ops
    for t in range(nth):
        mine, mine_c = [], []
        ops = []
        if prop == "C04":
            for _ in range(r.choice([1, 2, 3])):
                st["c"] += 1
                conns.append(st["c"]); mine_c.append(st["c"])
                setup.append(("connect", r.randint(1, procs), r.choice([1, 1, 2]), st["c"]))
                if r.random() < 0.4:
                    c = st["c"]
                    bodies[c] = []
                    bodies[c] = [("disc", 0, r.choice(mine_c), 0)] if r.random() < 0.6 else [("post", r.randint(1, procs), 2, 90 + c)] if False else [("connected", 1, 1, 0)]
        for _ in range(r.choice([2, 3, 4])):
            ops.append(aop(0, mine))
            if prop == "C04" and nth == 1 and r.random() < 0.5:
                ops.append(("runonce", r.randint(1, procs), 5, 0))
        if prop == "C03":
            for h in mine: ops.append(("wait", 0, h, 0))
        threads.append(ops)
    for p in range(1, procs + 1):
        x = r.random()
        if prop == "C02":
            threads.append([run(p)] if x < 0.5 else [run(p), reuse(p), run(p)] if x < 0.7 else [runfor(30, p), runonce(10, p)])
        elif nth == 1 and x < 0.4:
            threads[0] += [runonce(5, p), runonce(5, p), runfor(10, p)]
        elif x < 0.8:
            threads.append([run(p)])
        else:
            threads.append([runfor(40, p), runonce(0, p)])
    if prop == "C03" and r.random() < 0.6:
        threads.append([("stop", r.randint(1, procs), 0, 0)])
    # bound the number of tasks a program can create
    prog = P(threads, bodies, procs, setup=setup)
    prog["same"] = procs == 2 and r.random() < 0.4
    return prog

def gen_exec(r):
    procs = r.choice([1, 1, 2])
    bodies, setup, level = {}, [], {}
    c = [10]
    v = [0]
    def conn(first=False):
        c[0] += 1
        o = r.choice([1, 1, 2, 3])
        level[c[0]] = o
        kind = r.choice([0, 1, 1, 2, 2, 3, 3, 4])
        if first and o == 3 and kind == 3: kind = 2    # nobody runs it yet, and connecting would wait
        p = r.randint(1, procs)
        if r.random() < 0.5:
            b = []
            for _ in range(r.choice([1, 1, 2])):
                x = r.random()
                # emissions from within a slot go to higher signals only; the slot runs with
                # the lock of its own signal held unless it goes through a queue
                if x < 0.45 and o < 3: b.append(emit(r.choice([q for q in (2, 3) if q > o])))
                elif x < 0.6: b.append(("execa", r.randint(1, procs), 200, 0))
                elif x < 0.7 and kind == 2 and r.random() < 0.3: b.append(("exblock", p, 201, 0))
                else: b.append(me)
            bodies[c[0]] = b
        return SC(c[0], kind, o, p)
    def emit(o):
        v[0] += 1
        return OS(r.randrange(3)) if o == 3 else EM(v[0] % 90 + 1, o)
    for _ in range(r.choice([1, 2, 3, 4])): setup.append(conn(True))
    known = list(range(11, c[0] + 1))
    nth = r.choice([1, 1, 2, 2, 3])
    threads = []
    for t in range(nth):
        ops, mine = [], [k for k in known if k % nth == t]
        for _ in range(r.choice([2, 3, 4])):
            x = r.random()
            if x < 0.55: ops.append(emit(r.choice([1, 1, 2, 3])))
            elif x < 0.65 and mine: ops.append(SD(r.choice(mine)))
            elif x < 0.75:
                ops.append(conn()); mine.append(c[0])
            elif x < 0.85: ops.append((r.choice(["exblock", "exasync", "exdef", "exec"]), r.randint(1, procs), 202, 0))
            elif x < 0.92: ops.append((r.choice(["stop", "reuse", "stop"]), r.randint(1, procs), 0, 0))
            else: ops.append(pending())
        threads.append(ops)
    for p in range(1, procs + 1):
        x = r.random()
        if x < 0.75: threads.append([run(p)] + ([reuse(p), run(p)] if r.random() < 0.2 else []))
        elif x < 0.9: threads.append([runfor(40, p), runonce(0, p)])
        else: threads.append([runonce(10, p), runonce(10, p), runonce(10, p)])
    return P(threads, bodies, procs, setup=setup)

def small(progs, limit):
    """Programs small enough for exhaustive exploration of the specification."""
    out = []
    for p in progs:
        n = sum(len(t) for t in p["threads"]) + sum(len(b) for b in p["bodies"].values())
        if n <= limit and not any(o[0] == "drop" for t in p["threads"] for o in t):
            out.append(p)
    return out

def check(ctx, prop):
    r = random.Random(ctx.seed * 7919 + int(prop[1:]))
    fix = FIX[prop]
    vlib.B.build("proc")
    # 1. the specification has the property, for every behaviour of the fixed programs
    mc = small(fix, ctx.scale(7, 9))
    pf = os.path.join(ctx.work, "mcprogs.json")
    with open(pf, "w") as f:
        f.write("\n".join(mcprog(p) for p in mc) + "\n")
    vlib.model_check(ctx, "MCProc", env=dict(PROGS=pf), timeout=ctx.scale(200, 700))
    # 2. executions of the real code are behaviours of the specification
    rnd = [gen(prop, r) for _ in range(ctx.scale(60, 400))]
    progs = [sx(p) for p in fix]
    opts = ["--ptime", "0.01", "--pspurious", "0.3"]
    vlib.conform(ctx, "proc", "ProcTrace", progs, ctx.scale(1500, 20000), ctx.scale(25, 150),
                 opts, max_traces=ctx.scale(1300, 20000))
    progs = [sx(p) for p in rnd]
    vlib.conform(ctx, "proc", "ProcTrace", progs, ctx.scale(150, 1500), ctx.scale(20, 150),
                 opts, max_traces=ctx.scale(1300, 20000))
