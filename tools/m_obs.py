"""C09: observables (specs/Obs.tla)."""
import prog
from prog import standard

def P(threads, bodies=None, **kw):
    b = {k: [(o[0], 0, k) if o[0].startswith("self") else o for o in v] for k, v in (bodies or {}).items()}
    return prog.P(threads, b, **kw)

def C(c, k=0, p=1): return ("connect", p, c, k)
def CS(c, k=0, p=1): return ("sconnect", p, c, k)
def W(c, p=1): return ("wconnect", p, c)
def S(v, p=1): return ("set", p, v)
def M(n, v, p=1, b=0): return (n, p, v, b)
def G(p=1): return ("get", p)
def D(c): return ("disc", 0, c)
def R(c): return ("reconn", 0, c)
def I(c): return ("isconn", 0, c)
def X(c): return ("expire", 0, c)
def N(p=1): return ("count", p)
SD = ("selfdisc",)
J, JX, JS = ("join", 3), ("join", 10), ("join", 8)
def DR(e=1): return ("drain", e)
def FW(c, ms=0): return ("fwait", 0, c, ms)

FIX = [
  P([[C(1), S(1), S(1), S(2), G(), D(1), S(3), R(1), S(4), N(), I(1)]]),
  P([[S(5), C(1), CS(2), S(5), S(6), M("assign", 7), M("mut", 8), M("mut", 8), M("add", 2), M("inc", 0), ("imm", 1), ("getpart", 1, 1)]]),
  P([[C(1), M("mut2", 3, 1, 4), M("mut2", 5, 1, 4), M("add", 0), M("silent", 6), S(6), G(), S(7)]]),
  P([[C(1, 0, 2), C(2, 7, 2), S(102, 2), M("setrev", 301, 2), S(301, 2), ("setpart", 2, 1, 5), ("setpart", 2, 2, 5), ("setpart", 2, 2, 5), G(2)]]),
  P([[C(1, 0, 2), ("mutpart", 2, 1, 4), ("mutpart", 2, 2, 0), ("silentpart", 2, 2, 7), ("getpart", 2, 2), ("setpart", 2, 1, 4), ("mutpart", 2, 2, 8), M("mut2", 101, 2, 102), M("silent", 203, 2), C(2, 1, 2), ("imm", 2)]]),
  P([[C(1, 1), C(2, 1), S(1), S(2), N()]], {1: [SD]}),
  P([[C(1, 0), S(1), C(2, 1), S(2)]], {1: [D(1), I(1)], 2: [R(2), D(2)]}),
  P([[C(1, 2), C(2), S(1), X(1), S(2), N(), S(3), N()]]),
  P([[C(1, 2), X(1), C(2, 2), S(1), N()]], {2: [X(2)]}),
  P([[C(1), C(2), C(3), S(1), N(), S(2)]], {1: [D(2)], 3: [D(1), S(4, 2)]}),
  P([[C(1), C(2, 0, 2), S(1), S(2), G(2)]], {1: [S(102, 2), ("get", 1)]}),
  P([[C(1), CS(2), C(3), S(1), G(), S(2), S(2)]], throws=[2]),
  P([[C(1, 0, 5), C(2, 0, 5), S(1, 5), D(1), C(3, 1, 5), S(2, 5), R(1), S(3, 5), I(3), N(5)]], {3: [SD]}),
  P([[C(1, 21), S(1), S(2), DR(), S(3), D(1), DR()]]),
  P([[C(1, 0, 6), M("mut", 1, 6), M("add", 1, 6), ("imm", 6), C(2, 0, 7), S(101, 7), ("mutpart", 7, 1, 2), G(7)]]),
  P([[S(1), S(2, 4), J, G(3), C(1, 0, 3), S(3), S(4, 4), S(4, 4), ("silent", 1, 9), S(9), S(8), ("imm", 3), ("getpart", 3, 1)]]),
  P([[S(1), JX, G(10), C(1, 0, 10), S(3), S(4, 4), G(10), DR(), G(10), DR(), D(1), S(5), DR(), G(10)]]),
  P([[S(1, 6), JS, C(1, 7, 8), S(2, 6), S(3, 9), M("mut", 4, 9), G(8)]]),
  P([[J, C(1, 0, 3), C(2), S(1), S(2), G(3)]], throws=[2]),
  P([[J, CS(1, 0, 3), C(2), S(1), G(3), S(2), G(3)]], throws=[1]),
  P([[J, C(1), C(2, 0, 3), S(1), G(3)]], {1: [S(7, 4)], 2: [("get", 4)]}),
  P([[W(1), W(2, 2), S(1), FW(1), S(2), S(102, 2), FW(2), FW(1), FW(2, 5)]]),
  P([[W(1, 3), S(1), FW(1, 5)]], setup=[J]),
  # several threads
  P([[S(1), S(2)], [C(1), G()]]),
  P([[S(1), S(2)], [S(2), S(1)]], setup=[C(1)]),
  P([[S(1)], [D(1), R(1), I(1)]], setup=[C(1), C(2)]),
  P([[M("inc", 0), M("inc", 0)], [M("add", 2), M("inc", 0)]], setup=[C(1)]),
  P([[M("inc", 0)], [M("inc", 0)], [C(1, 1)]], {1: [SD]}),
  P([[("setpart", 2, 1, 1)], [("setpart", 2, 2, 1)], [S(101, 2)]], setup=[C(1, 0, 2)]),
  P([[("mutpart", 2, 1, 1)], [("mutpart", 2, 2, 1)], [G(2), C(1, 7, 2)]]),
  P([[S(1)], [S(1, 4)], [G(3), C(2, 0, 3)]], setup=[J, C(1, 0, 3)]),
  P([[S(1)], [S(1, 4)], [DR()]], setup=[JX, C(1, 0, 10)]),
  P([[S(1)], [D(1), X(2)], [N()]], setup=[C(1), C(2, 2), J]),
  P([[S(1), S(2)], [FW(1)], [FW(2, 10)]], setup=[W(1), W(2)]),
  P([[S(1)], [M("silent", 2), G()], [C(1)]]),
  P([[S(1, 5)], [C(2, 0, 5), I(2)], [D(1)]], setup=[C(1, 0, 5)]),
  P([[S(1)], [S(2)]], {1: [("get", 2), S(101, 2)]}, setup=[C(1), C(2, 0, 2)]),
  P([[S(1), DR()], [S(2)]], setup=[C(1, 21), C(2)]),
]

ORDER = [1, 4, 3, 2, 5]
def gen(r):
    nth = r.choice([1, 1, 2, 2, 3])
    single = nth == 1
    setup = []
    joins = []
    for j in (J, JX, JS):
        if r.random() < 0.25 and (single or j != JS):
            setup.append(j); joins.append(j[1])
    thr = r.random() < 0.2
    bodies, throws, n = {}, [], [0]
    mod1 = [1, 1, 1, 4, 4, 5] + ([6, 9] if single else [])
    mod2 = [2, 2] + ([7] if single else [])
    drainer = {1: r.randrange(nth), 2: r.randrange(nth)}
    allt = []
    sil = r.random() < 0.3
    def two(): return 100 * r.randrange(3) + r.randrange(3)
    def modify(objs):
        p = r.choice([q for q in mod1 + mod2 if q in objs] or [0])
        if p == 0: return ("count", 1)
        if p in (2, 7):
            n = r.choice(["set", "setrev", "assign", "setpart", "setpart"] + ([] if thr else ["mut", "mut2", "mutpart", "mutpart"]))
            if sil and r.random() < 0.3: n = r.choice(["silent", "silentpart"])
            if n in ("setpart", "mutpart", "silentpart"): return (n, p, r.choice([1, 2]), r.randrange(4))
            return (n, p, two(), two() if n == "mut2" else 0)
        n = r.choice(["set", "set", "set", "assign"] + ([] if thr else ["mut", "mut2", "add", "inc"]))
        if sil and r.random() < 0.3: n = "silent"
        return (n, p, r.randrange(4), r.randrange(4) if n == "mut2" else 0)
    everything = set(mod1 + mod2 + joins)
    def connect(mine, depth):
        p = r.choice(list(everything) + mod1)
        n[0] += 1
        c = n[0]
        k = r.choice([0, 0, 0, 1, 1, 2, 21, 22] + ([7] if p in (2, 7, 3, 8, 10) else []))
        if k == 2: allt.append(c)
        mine.append(c)
        if depth < 2 and r.random() < 0.4:
            b = []
            up = set(ORDER[ORDER.index(p) + 1:]) if p in ORDER else set()
            for _ in range(r.choice([1, 1, 2])):
                x = r.random()
                if k == 1 and x < 0.4: b.append(SD)
                elif x < 0.6 and single: b.append(r.choice([D, D, R, I])(r.choice(mine)))
                elif x < 0.75 and up: b.append(modify(up))
                elif x < 0.8 and single and up:
                    b.append(connect(mine, depth + 1) if False else ("count", p))
                elif x < 0.85 and allt: b.append(X(r.choice(allt)))
                else: b.append(r.choice([("count", p), ("get", p)]))
            bodies[c] = [o for o in b if not o[0].startswith("silent")]
        th = thr and r.random() < 0.3 and k in (0, 1, 7)
        if th: throws.append(c)
        return ("sconnect" if th or r.random() < 0.2 else "connect", p, c, k)
    def aop(t, mine, wm):
        x = r.random()
        if x < 0.42: return modify(everything)
        if x < 0.55: return connect(mine, 0)
        if x < 0.72 and mine: return r.choice([D, D, R, I])(r.choice(mine))
        if x < 0.84:
            p = r.choice(list(everything))
            if p in (2, 7, 3, 8, 10) and r.random() < 0.4: return ("getpart", p, r.choice([1, 2]))
            return (r.choice(["get", "imm", "count"]), p)
        if x < 0.88 and allt: return X(r.choice(allt))
        if x < 0.94:
            e = r.choice([1, 2])
            return DR(e) if drainer[e] == t else ("count", 1)
        if x < 0.97:
            n[0] += 1; wm.append(n[0])
            return W(n[0], r.choice(mod1[:4] + [2]))
        if wm: return FW(r.choice(wm), r.choice([5, 20]))
        return ("get", 1)
    threads = []
    for t in range(nth):
        mine, wm = [], []
        if nth > 1:
            for _ in range(r.choice([1, 2])): setup.append(connect(mine, 0))
        threads.append([aop(t, mine, wm) for _ in range(r.choice([6, 9, 12]) if single else r.choice([2, 3, 4]))])
    return P(threads, bodies, setup=setup, throws=throws)

def check(ctx, prop):
    standard(ctx, "obs", "Obs", FIX, gen, nrand=(500, 3000), runs_fix=(400, 4000), runs_rand=(30, 200))
