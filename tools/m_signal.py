"""C06 - C08: signals, slots, connections (specs/Signal.tla); the executor slots also serve C10."""
import prog
from prog import standard

def P(threads, bodies=None, **kw):
    # selfdisc etc. concern the slot they are in
    b = {k: [(o[0], 0, k) if o[0].startswith("self") else o for o in v] for k, v in (bodies or {}).items()}
    return prog.P(threads, b, **kw)

def C(c, k=0, p=1): return ("connect", p, c, k)
def W(c, p=1): return ("wconnect", p, c)
def E(v=1, p=1): return ("emit", p, v)
def D(c): return ("disc", 0, c)
def R(c): return ("reconn", 0, c)
def I(c): return ("isconn", 0, c)
def X(c): return ("expire", 0, c)
N, S = ("count", 1), ("sconn", 1)
def DS(c, p=1): return ("dslot", p, c)
DA = ("discall", 1)
SD, SR, SC = ("selfdisc",), ("selfreconn",), ("selfconn",)
def DR(e=1): return ("drain", e)
def FW(c, ms=0): return ("fwait", 0, c, ms)
def FV(c): return ("fvalid", 0, c)
def SCP(h, c): return ("scope", h, c)
def SCM(h, g): return ("scmove", h, g)
def SCD(h): return ("scdrop", h)
def DROP(p): return ("drop", p)
def MV(c): return ("move", 0, c)

FIX = {
"C06": [
  P([[C(1), C(2), C(3), E(7), N, D(2), E(8), R(2), E(9), N, S, DA, S, N, E(3)]]),
  P([[C(1, 1), C(2), E(1), N, E(2), R(1), I(1)]], {1: [SD]}),
  P([[C(1, 1), C(2), E(1), N, I(1), E(2)]], {1: [SD, SC, SD]}),
  P([[C(1, 1), C(2, 1), C(3, 1), E(1), E(2), N]], {1: [SD], 2: [SD], 3: [SD]}),
  P([[C(1), C(2), C(3), E(1), N, E(2)]], {1: [D(2)]}),
  P([[C(1), C(2), C(3), E(1), N, E(2)]], {2: [D(1)]}),
  P([[C(1), C(2), C(3), E(1), N, E(2)]], {2: [D(2)]}),
  P([[C(1), C(2), C(3), E(1), N, E(2)]], {3: [D(1), D(2), D(3)]}),
  P([[C(1), C(2), E(1), N, E(2)]], {1: [C(3)]}),
  P([[C(1), C(2), E(1), N]], {1: [D(2), R(2)]}),
  P([[C(1), C(2), C(3), E(1), N]], {2: [D(1), R(1), D(3), N]}),
  P([[C(1), C(2), C(3), E(1), N, E(2)]], {2: [DA, N, S]}),
  P([[C(1), C(2), C(3), E(1), N, C(4), E(2)]], {1: [DA, C(5)]}),
  P([[C(1), C(2), C(3), E(1), N, E(2)]], throws=[2]),
  P([[C(1, 1), C(2), E(1), N, E(2), D(2), N]], {1: [SD]}, throws=[1]),
  P([[C(1), C(2), C(3), E(1), N, E(2)]], {2: [D(1), D(3)]}, throws=[2]),
  P([[C(1, 12), C(2, 0, 2), C(3), E(1), D(2), E(2)]]),
  P([[C(1, 12), C(2, 0, 2), C(3), E(1), N, E(2), N]], throws=[2]),
  P([[C(1, 12), C(2, 0, 2), C(3), E(1), DROP(2), E(2), N, E(3)]]),
  P([[C(1, 12), C(2, 0, 2), C(3), C(4, 13), C(5, 0, 3), E(1), E(2)]], {2: [D(3)]}),
  P([[C(1, 0, 3), C(2, 0, 3), I(1), I(2), E(5, 3), ("count", 3), D(1), C(3, 1, 3), E(6, 3), ("count", 3), E(7, 3)]], {3: [SD, SC]}),
  P([[C(1, 0, 3), E(5, 3), ("count", 3), E(6, 3)]], {1: [D(1), C(2, 0, 3)]}),
  P([[C(1, 0, 3), E(5, 3), E(6, 3)]], throws=[1]),
  P([[C(1, 1, 4), C(2, 0, 4), C(3, 0, 4), E(5, 4), ("count", 4), E(6, 4)]], {1: [SD, D(2)]}),
  P([[C(1, 0, 5), C(2, 0, 5), E(5, 5), D(1), R(1), E(6, 5)]]),
  P([[C(1, 0, 6), C(2, 7, 6), C(3, 8, 6), E(5, 6), E(6, 6)]]),
  P([[C(1, 4), C(2, 6), C(3, 7), C(4, 30), E(5), E(6)]]),
  P([[C(1), C(2, 2), C(3, 3), C(4, 5), E(5), X(3), E(6), N, X(2), X(4), E(7), N, S, E(8), N]]),
  P([[C(1), C(2, 2), C(3), E(5), N, E(6)]], {1: [X(2)]}),
  P([[C(1, 2), C(2, 3), C(3, 5), E(5), N, E(6)]], {1: [X(1)], 2: [X(2), X(3)], 3: [X(3)]}),
  P([[C(1, 21), C(2, 41), C(3), E(5), DR(), E(6), X(2), E(7), DR()]]),
  P([[W(1), W(2), E(5), FW(1), FW(1), E(6), FW(2), FV(2)]]),
  P([[W(1), N, E(5), N, FV(1), FW(1, 10), FV(1)]], throws=[1]),
],
"C07": [
  P([[C(1, 6, 3), ("discall", 3), I(1), C(2, 0, 3), I(1), D(1), I(2), E(1, 3), R(1), DS(1, 3), DS(2, 3), I(2)]]),
  P([[C(1, 6), C(2, 6), DS(1), I(1), D(1), R(1), N, E(1), D(2), DS(2), R(2), DS(2), D(2), N, R(2)]]),
  P([[C(1, 6), SCP(1, 1), DA, C(2, 6), SCP(2, 2), SCD(1), E(1), DS(2), SCD(2)]]),
  P([[C(1, 6), C(2), E(1), I(1), E(2), DROP(1), D(1), I(1)]], {2: [DS(1)], 1: [DS(1), C(3)]}),
  P([[C(1), I(1), D(1), I(1), D(1), E(1), R(1), I(1), R(1), E(2), D(1), E(3)]]),
  P([[C(1), MV(1), I(1), E(1), D(1), MV(1), I(1), R(1), I(1), E(2)]]),
  P([[C(1), DA, I(1), D(1), R(1), I(1), E(1)]]),
  P([[C(1), D(1), DA, R(1), I(1), E(1)]]),
  P([[C(1), DROP(1), I(1), D(1), R(1), MV(1)]]),
  P([[C(1), D(1), DROP(1), I(1), R(1), D(1)]]),
  P([[C(1), C(2), SCP(1, 1), I(1), D(1), E(1), SCD(1), E(2), N]]),
  P([[C(1), C(2), SCP(1, 1), SCP(2, 2), SCM(1, 2), E(1), N, SCD(2), E(2), SCD(1), N]]),
  P([[C(1), C(2), SCP(1, 1), SCP(1, 2), E(1), N, SCD(1), N]]),
  P([[C(1), C(2, 0, 2), SCP(10, 1), SCP(10, 2), E(1), E(1, 2), SCD(10), E(2), E(2, 2), N]]),
  P([[C(1), SCP(1, 1), DROP(1), SCD(1)]]),
  P([[C(1), D(1), SCP(1, 1), SCD(1), N]]),
  P([[C(1, 2), I(1), X(1), E(1), I(1), D(1), R(1)]]),
  P([[C(1, 2), D(1), X(1), R(1), E(1), I(1), N]]),
  P([[C(1, 0, 3), C(2, 0, 3), I(2), D(2), R(2), D(1), C(3, 0, 3), R(1), I(1), I(3)]]),
  P([[C(1, 0, 3), D(1), I(1), R(1), I(1), SCP(1, 1), SCD(1), ("count", 3)]]),
  P([[C(1, 1), E(1), I(1), D(1), R(1), I(1), E(2)]], {1: [SC, SD, SC]}),
  P([[C(1, 1), E(1), I(1), D(1), R(1), I(1), E(2)]], {1: [SD, SD]}),
  P([[C(1), C(2), E(1), I(1), I(2), R(2), I(2), E(2)]], {1: [D(2), I(2)]}),
  P([[C(1), C(2), E(1), I(1), I(2), R(2), I(2), E(2)]], {1: [D(2), R(2), I(2)]}),
  P([[C(1), SCP(1, 1), C(2), E(1), N, E(2)]], {1: [SCD(1)]}),
  P([[C(1), C(2), SCP(1, 1), SCP(2, 2), E(1), N, E(2)]], {1: [SCM(1, 2), SCD(1)]}),
  P([[C(1, 12), C(2, 0, 2), I(1), DROP(2), E(1), I(1), I(2), D(1)]]),
  P([[W(1), FV(1), DA, FW(1), FV(1)]]),
  P([[W(1), DROP(1), FW(1), FV(1)]]),
  P([[C(1, 0, 3), W(2, 3), FV(2), FW(2), FW(2, 5)]]),
  P([[C(1, 21), E(1), D(1), DR(), R(1), E(2), DR()]]),
  P([[C(1), E(1), SCP(1, 1)], [SCM(1, 1)]]) if False else P([[C(1), E(1), N]]),
],
"C08": [
  P([[E(1)], [D(1), E(2)]], {1: [S]}, setup=[C(1), C(2)]),
  P([[E(1)], [DS(1), I(1)], [DA, D(1), I(2)]], setup=[C(1, 6), C(2, 6)]),
  P([[E(1, 3)], [D(1), I(1)], [("discall", 3), C(2, 6, 3), I(2)]], setup=[C(1, 6, 3)]),
  P([[E(1)], [E(2)]], {1: [X(1)], 2: [X(2)], 3: [X(3)]}, setup=[C(1, 2), C(2, 3), C(3, 5)]),
  P([[E(1)], [E(2)]], {1: [N], 2: [S]}, setup=[C(1), C(2)]),
  P([[E(1)], [D(1)], [D(2)]], {}, setup=[C(1), C(2), C(3)]),
  P([[E(1)], [C(3), I(3)], [C(4), N]], {1: [N]}, setup=[C(1)]),
  P([[E(1)], [D(1), R(1), I(1)], [S, N]], {1: [S, N]}, setup=[C(1), C(2)]),
  P([[E(1), E(2)], [I(2), D(2), I(2)]], {1: [SD]}, setup=[C(1, 1), C(2)]),
  P([[E(1)], [DA, N], [E(2)]], {}, setup=[C(1), C(2)]),
  P([[E(1)], [X(1), X(2)]], {}, setup=[C(1, 2), C(2, 3), C(3)]),
  P([[E(1)], [X(1)], [E(2)]], {}, setup=[C(1, 5), C(2)]),
  P([[E(1)], [E(2, 2)], [D(2)]], {}, setup=[C(1, 12), C(2, 0, 2)]),
  P([[E(1)], [E(2, 2), D(3)]], {2: [S]}, setup=[C(1, 12), C(2, 0, 2), C(3, 0, 2)]),
  P([[E(1, 3)], [D(1), C(2, 0, 3), I(2)], [E(2, 3)]], {}, setup=[C(1, 0, 3)]),
  P([[E(1, 3)], [E(2, 3)]], {1: [SD]}, setup=[C(1, 1, 3)]),
  P([[E(1), E(2)], [DR()], [D(1)]], {}, setup=[C(1, 21), C(2)]),
  P([[E(1)], [X(1), DR()]], {}, setup=[C(1, 41), C(2)]),
  P([[FW(1)], [E(1)], [E(2)]], {}, setup=[W(1)]),
  P([[FW(1, 10)], [E(1)], [FW(2)]], {}, setup=[W(1), W(2)]),
  P([[FW(1)], [DA]], {}, setup=[W(1)]),
  P([[SCD(1)], [E(1)], [E(2)]], {}, setup=[C(1), SCP(1, 1), C(2)]),
  P([[E(1)], [E(2)]], {}, throws=[1], setup=[C(1), C(2)]),
  P([[E(1), N], [E(2), D(2)]], {1: [D(1)]} if False else {}, throws=[2], setup=[C(1), C(2)]),
  P([[C(1), E(1)], [C(2), E(2)]], {}),
  P([[E(1)], [C(3, 3), D(3)]], {2: [SD]}, setup=[C(1), C(2, 1)]),
  P([[E(1)], [C(5), D(5)]], {1: [C(3), D(3), R(3)]}, setup=[C(1), C(2)]),
],
}

def gen(prop):
    def g(r):
        nth = r.choice([2, 2, 3]) if prop == "C08" else 1
        single = nth == 1
        sigs = [1, 1, 1, 2, 3] + ([4, 5, 6] if single else [])
        n = [0]
        bodies, throws, setup = {}, [], []
        tags = [0]
        alltracked = []
        drainer = {1: r.randrange(nth), 2: r.randrange(nth)}
        holders = {t: [1 + 2 * t, 2 + 2 * t, 10 + t] for t in range(nth)}
        dropped = set()
        def kind(p):
            if p == 6: return r.choice([0, 2, 7, 8, 21])
            return r.choice([0, 0, 0, 1, 1, 2, 3, 5, 4, 6, 7, 30, 21, 22, 41] + ([12] if p == 1 else [])
                            + ([13] if p == 2 else []) + ([14, 15] if p == 1 and single else []))
        def connect(mine, depth, t):
            p = r.choice(sigs)
            n[0] += 1
            c, k = n[0], kind(p)
            if k in (2, 3, 5, 41): alltracked.append(c)
            mine.append(c)
            if depth < 2 and r.random() < (0.5 if single else 0.35) and k not in (12, 13, 14, 15):
                # what the slot does; it runs in whatever thread emits, so with several threads it
                # only uses connections that nobody else does
                b = []
                own = mine if single else []
                for _ in range(r.choice([1, 1, 2, 3])):
                    if k == 1 and r.random() < 0.7:
                        b.append(r.choice([SD, SD, SR, SC]))
                        continue
                    x = r.random()
                    if x < 0.45 and own: b.append(r.choice([D, D, R, I])(r.choice(own)))
                    elif x < 0.6 and single: b.append(connect(own, depth + 1, t))
                    elif x < 0.65 and single: b.append(("discall", p))
                    elif x < 0.7 and alltracked: b.append(X(r.choice(alltracked)))
                    elif x < 0.75 and p in (1, 2) and k < 10: b.append(E(50 + c, 3 if p == 2 else 2)) if (p == 2 or single) else b.append(("count", p))
                    else: b.append(r.choice([("count", p), ("sconn", p)]) if True else None)
                bodies[c] = b
            if r.random() < 0.1 and k not in (8, 12, 13, 14, 15, 30): throws.append(c)
            return ("connect", p, c, k)
        waits = {}
        def aop(t, mine, wmine):
            x = r.random()
            p = r.choice(sigs)
            if x < 0.26:
                tags[0] += 1
                return E(tags[0], p)
            if x < 0.40: return connect(mine, 0, t)
            if x < 0.70 and mine:
                return r.choice([D, D, R, R, I, MV])(r.choice(mine))
            if x < 0.74: return r.choice([("count", p), ("sconn", p)])
            if x < 0.755: return ("discall", p)
            if x < 0.77: return DS(r.choice(mine), p) if mine and p != 6 else ("sconn", p)
            if x < 0.82 and alltracked: return X(r.choice(alltracked))
            if x < 0.87:
                e = r.choice([1, 2])
                return DR(e) if drainer[e] == t else ("count", p)
            if x < 0.93 and mine:
                h = r.choice(holders[t])
                return r.choice([SCP(h, r.choice(mine)), SCP(h, r.choice(mine)), SCD(h)]
                                + ([SCM(holders[t][0], holders[t][1])]))
            if x < 0.97 and p != 6:
                n[0] += 1
                wmine.append(n[0])
                return W(n[0], p)
            if wmine: return r.choice([FV(r.choice(wmine)), FW(r.choice(wmine), r.choice([5, 20]))])
            return ("sconn", p)
        threads = []
        for t in range(nth):
            mine, wmine = [], []
            if prop == "C08":
                for _ in range(r.choice([1, 2])): setup.append(connect(mine, 0, t))
            ops = [aop(t, mine, wmine) for _ in range(r.choice([2, 3, 4, 5]) if not single else r.choice([6, 9, 12, 14]))]
            threads.append(ops)
        return P(threads, bodies, setup=setup, throws=throws)
    return g

def check(ctx, prop):
    if prop == "C08":
        standard(ctx, "signal", "Signal", FIX[prop], gen(prop), nrand=(150, 800))
    else:
        standard(ctx, "signal", "Signal", FIX[prop], gen(prop), nrand=(1500, 8000), runs_fix=(60, 600),
                 runs_rand=(4, 8), mclimit=(16, 16))
