"""C11-C15: services within a process (specs/CS.tla)."""
from prog import P, standard

# numbers: handlers 1-9, registrations 10-19, observers 20-29, listeners 30-39, abort callbacks 40-49,
# requests 60-; request 50 + service for ping
def SRV(b=0, p=1, a=1): return ("mkstub", p, a, b)
def CLI(b=0, p=1, a=1): return ("mkproxy", p, a, b)
def H(h, o=1, p=1): return ("handle", p, h, o)
def UH(o=1, p=1): return ("unhandle", p, 0, o)
def UP(p=1): return ("start", p)
def DOWN(p=1): return ("stop", p)
def A(r, o=1, p=1): return ("async", p, r, o)
def PO(r, o=1, p=1): return ("post", p, r, o)
def SY(r, o=1, ms=0, p=1): return ("sync", p, r, o * 1000 + ms)
def AB(r, p=1): return ("abort", p, r)
def RE(v, r=0, p=1): return ("resp", p, r, v)
def UD(v, r=0, p=1): return ("upd", p, r, v)
def KEEP(r=0, p=1): return ("keep", p, r)
def VALID(r=0, p=1): return ("valid", p, r)
def OA(k, r=0, p=1): return ("onabort", p, r, k)
def DROP(r, p=1): return ("drop", p, r)
def REG(c, o=11, p=1): return ("reg", p, c, o)
def UNREG(c, p=1): return ("unreg", p, c)
def UNALL(o=11, p=1): return ("unregall", p, 0, o)
def GS(r, o=11, p=1): return ("getst", p, r, o)
def GA(r, o=11, p=1): return ("getsta", p, r, o)
def SET(v, o=11, p=1): return ("setst", p, o, v)
def REM(n=0, o=11, p=1): return ("remst", p, o, n)
def SG(o=11, p=1): return ("sget", p, o)
def BC(v, o=21, p=1): return ("bcast", p, o, v)
def HEAR(l, o=11, p=1): return ("hear", p, l, o)
def UNH(l, p=1): return ("unhear", p, l)
def OB(n, k=0, p=1): return ("observe", p, n, k)
def UNOB(n, p=1): return ("unobserve", p, n)
def SW(n, want, ms=0, p=1): return ("sigwait", p, n, ms * 10 + want)
def SS(n, p=1): return ("sigstop", p, n)
def SC(n, p=1): return ("sigcur", p, n)
ST, PAV = ("status", 1), ("spav", 1)
def DR(e=1): return ("drain", e)

S0 = [SRV(), CLI()]
S1 = S0 + [UP()]
def on(h=1, o=1): return S1 + [H(h, o)]

REQUESTS = [
  P([[A(60), SY(61), PO(62), A(63, 2), UH(), A(64), SY(65), H(2), A(66), H(3)]], {1: [VALID(), RE(7), VALID()], 2: [RE(8)]}, setup=on()),
  P([[A(60), VALID(60), UD(3, 60), RE(4, 60), RE(5, 60), UD(6, 60), DROP(60)]], {1: [KEEP()]}, setup=on()),
  P([[A(60), A(61), A(62)]], {1: [UD(1), UD(2), RE(3), RE(4), UD(5)]}, setup=on()),
  P([[A(60), OA(40, 60), AB(60), VALID(60), RE(1, 60), AB(60), OA(41, 60), DROP(60), AB(61)]], {1: [KEEP()]}, setup=on()),
  P([[SY(60, 1, 5), VALID(60), RE(1, 60), DROP(60)]], {1: [KEEP(), OA(40)]}, setup=on()),
  P([[A(60), SY(61)]], {1: []}, setup=on()),
  P([[SY(60), SY(61, 1, 9)]], {1: [UD(1), UD(2), RE(3)]}, setup=on()),
  P([[A(60), DROP(60), SY(61, 2)]], {1: [KEEP()], 2: [RE(-106)]}, setup=on() + [H(2, 2)]),
  P([[A(51, 3), SY(60, 1)]], {1: [RE(4)], 2: [UD(-1), RE(-1)]}, setup=on() + [H(2, 3)]),
  P([[A(60), RE(1, 60), DR(), A(61), AB(61), DR(), RE(2, 61), DROP(61), DROP(60), DR()]], {1: [KEEP()]},
    setup=[SRV(), CLI(1), UP(), H(1)]),
  P([[A(60), A(61), DR(2), AB(61), A(62), AB(62), DR(2)]], {1: [OA(40), RE(5)], 60: [A(63)]}, setup=[SRV(2), CLI(), UP(), H(1)]),
  P([[A(60), SY(61), A(62, 2)]], {1: [RE(1)], 2: [RE(2)]}, setup=[SRV(3), CLI(), UP(), H(1), SRV(0, 1, 2), H(2, 2, 2)]),
  P([[A(60), A(61, 1, 2)]], {1: [RE(1)]}, setup=[SRV(), CLI(3), CLI(0, 1, 2), UP(), H(1)]),
  P([[A(60), SY(61), UP(), A(62), DOWN(), A(63), RE(1, 62), UP(), A(64), RE(2, 64), DROP(62), DROP(64)]], {1: [KEEP()]}, setup=S0 + [H(1)]),
  P([[A(60), A(61)]], {1: [RE(1)], 60: [SY(62), A(63)]}, setup=on()),
  P([[A(60)]], {1: [A(61, 2), RE(1)], 2: [RE(2)], 61: [VALID(60)]}, setup=on() + [H(2, 2)]),
  P([[A(60), AB(60), RE(1, 60)]], {1: [KEEP(), OA(40)], 40: [VALID(60), A(61, 2)], 2: [RE(2)]}, setup=on() + [H(2, 2)]),
  P([[A(60), AB(60), A(61), AB(61), OA(40, 61)]], {1: [KEEP()], 40: [VALID(61), OA(41, 61), RE(1, 61)]}, setup=on()),
  P([[A(60), DOWN()]], {1: [DOWN(), UP(), RE(1)]}, setup=on()),
  P([[A(60, 1), A(61, 1, 2)]], {1: [RE(1)], 2: [RE(2)]}, setup=on() + [SRV(0, 2, 2), CLI(0, 2, 2), UP(2), H(2, 1, 2)]),
  # several threads
  P([[SY(60)], [RE(1, 60), RE(2, 60)], [RE(3, 60)]], {1: [KEEP()]}, setup=on()),
  P([[RE(1, 60), UD(2, 60)], [AB(60)]], {1: [KEEP(), OA(40)]}, setup=on() + [A(60)]),
  P([[UD(1, 60), RE(2, 60)], [AB(60)], [DR()]], {1: [KEEP()]}, setup=[SRV(), CLI(1), UP(), H(1), A(60)]),
  P([[SY(60, 1, 5)], [RE(1, 60)]], {1: [KEEP()]}, setup=on()),
  P([[SY(60)], [DOWN()]], {1: [KEEP()]}, setup=on()),
  P([[SY(60), A(61)], [DOWN(), UP()]], {1: [RE(1)]}, setup=on()),
  P([[A(60), SY(61)], [DR(2), DR(2)], [DOWN()]], {1: [RE(1)]}, setup=[SRV(2), CLI(), UP(), H(1)]),
  P([[A(60), SY(61)], [DR(2)], [UH(), H(2)]], {1: [RE(1)], 2: [RE(2)]}, setup=[SRV(), CLI(), UP(), H(1)]),
  P([[SY(60), SY(61)], [SY(62), A(63)], [A(64), AB(64)]], {1: [UD(1), RE(2)]}, setup=on()),
  P([[A(60), AB(60)], [RE(1, 60), DROP(60)]], {1: [KEEP(), OA(40)]}, setup=on()),
  P([[OA(40, 60), VALID(60)], [AB(60)]], {1: [KEEP()]}, setup=on() + [A(60)]),
  P([[DROP(60)], [AB(60)]], {1: [KEEP(), OA(40)]}, setup=on() + [A(60)]),
]
NOTICES = [
  P([[SET(1), REG(10), SET(2), SET(2), REG(11), SET(3), UNREG(10), SET(4), UNREG(11), SET(5), REG(12), SG()]], setup=S1),
  P([[REG(10), REG(11, 12), SET(1), SET(1, 12), UNALL(), SET(2), SET(2, 12), REG(12), UNREG(10), SET(3)]], setup=S1),
  P([[GS(60), GA(61), SET(4), GS(62), GA(63), REG(10), SET(5), GS(64), GA(65), UNREG(10), SET(6), GS(66), DOWN(), GS(67), GA(68)]], setup=S1),
  P([[REG(10), SET(1), REM(), SG(), GS(60), REG(11), SET(1), REM(1), GS(61), GA(62), REG(12), SET(1)]], setup=S1),
  P([[REG(10, 21), REG(11, 22), BC(1), BC(0, 22), BC(1), UNREG(10), BC(2), REG(12, 22), BC(0, 22), UNALL(22), BC(0, 22)]], setup=S1),
  P([[HEAR(30), HEAR(31, 21), HEAR(32, 22), SET(1), BC(2), BC(0, 22), REG(10), SET(2), UNH(30), SET(3), REM(1), UNH(31), BC(5)]], setup=S1),
  P([[REG(10), SET(1), DOWN(), SET(2), REG(11), UP(), SET(3), REG(12), SET(4), UNREG(10), UNREG(12)]], setup=S1),
  P([[REG(10), SET(1), DOWN(), GA(60), UP(), GA(61), REG(11), GA(62), SET(2), GA(63)]], setup=S1),
  P([[REG(10), REG(11, 11, 2), SET(1), SET(2), DR(), SET(3), REG(12), DR()]], setup=[SRV(), CLI(1), CLI(0, 1, 2), UP()]),
  P([[REG(10), REG(11, 11, 2), SET(1), GS(60), HEAR(30), SET(2)]], setup=[SRV(2), CLI(3), CLI(0, 1, 2), UP()]),
  P([[REG(10), SET(1), REG(11), SET(3)]], {10: [GS(60), SG()], 11: [GA(61)]}, setup=S1),
  P([[REG(10), REG(11), SET(1), SET(2)]], {10: [UNREG(11)], 11: [SET(5, 12)]}, setup=S1),
  P([[HEAR(30), HEAR(31), SET(1), SET(2)]], {30: [SET(1, 12), SG(12)], 31: [BC(1)]}, setup=S1 + [REG(10, 12), REG(11, 21)]),
  P([[REG(10), SET(1)]], {10: [SET(2)]}, setup=S1),
  P([[REG(10), REG(11, 11, 2), SET(1), SET(2, 11, 2), GS(60, 11, 2)]], setup=S1 + [SRV(0, 2, 2), CLI(0, 2, 2), UP(2)]),
  # several threads
  P([[SET(1), SET(2)], [REG(10), GS(60)]], setup=S1),
  P([[SET(1)], [SET(2)]], setup=S1 + [REG(10)]),
  P([[SET(1)], [SET(2)], [GA(60), GS(61)]], setup=S1 + [REG(10), HEAR(30)]),
  P([[SET(1)], [REG(11)], [REG(12)]], setup=S1 + [SET(0)]),
  P([[SET(1)], [REG(11), UNREG(11)]], setup=S1 + [REG(10)]),
  P([[UNREG(10), SET(2)], [REG(11)]], setup=S1 + [REG(10), SET(1)]),
  P([[UNALL()], [REG(11)], [SET(2)]], setup=S1 + [REG(10), SET(1)]),
  P([[SET(1), SET(2)], [UNREG(10)], [UNREG(11)]], setup=S1 + [REG(10), REG(11)]),
  P([[BC(1), BC(2)], [REG(10, 21), UNREG(10)], [REG(11, 21)]], setup=S1),
  P([[BC(1), BC(0, 22)], [UNREG(10)], [DR()]], setup=[SRV(), CLI(1), UP(), REG(10, 21), REG(11, 22)]),
  P([[SET(1)], [SET(2)], [DR(), DR()]], setup=[SRV(), CLI(1), UP(), REG(10)]),
  P([[SET(1), SET(2)], [DOWN(), UP()], [GA(60), GA(61)]], setup=S1 + [REG(10), SET(0)]),
  P([[DOWN()], [REG(11), SET(2)]], setup=S1 + [REG(10), SET(1)]),
  P([[REM(1)], [SET(2)]], setup=S1 + [REG(10), SET(1)]),
  P([[HEAR(31), UNH(30)], [SET(1), SET(2)]], setup=S1 + [HEAR(30)]),
]
AVAIL = [
  P([[ST, OB(20), UP(), ST, PAV, OB(21), DOWN(), UNOB(20), UP(), UP(), DOWN(), DOWN(), ST, PAV]], setup=S0),
  P([[UP(), CLI(), ST, OB(20), DOWN(), ST]], setup=[SRV()]),
  P([[CLI(1), OB(20, 1), UP(), OB(21, 1), DR(), DOWN(), UP(), DR(), ST]], setup=[SRV()]),
  P([[OB(20, 2), SC(20), SW(20, 0), UP(), SW(20, 1), SC(20), SW(20, 0, 5), DOWN(), SW(20, 0), SS(20), SW(20, 1)]], setup=S0),
  P([[OB(20), OB(21), UP(), DOWN()]], {20: [ST, A(60), SY(61)], 21: [REG(10), GS(62)], 1: [RE(1)]}, setup=S0 + [H(1), SET(3)]),
  P([[OB(20), OB(21), UP(), DOWN(), UP()]], {20: [UNOB(21), OB(22)], 21: [UNOB(20)]}, setup=S0),
  P([[CLI(3), OB(20, 1), OB(21, 0), UP(), OB(22, 1), DOWN(), ST]], setup=[SRV()]),
  P([[OB(20), OB(21, 0, 2), UP(), UP(2), DOWN(), ST]], setup=S0 + [SRV(0, 2, 2), CLI(0, 2, 2)]),
  P([[OB(20), UP(), DOWN()]], {20: [CLI(0, 2, 2), OB(21, 0, 2)]}, setup=S0 + [SRV(0, 2, 2), UP(2)]),
  # several threads
  P([[UP(), DOWN()], [OB(20)]], setup=S0),
  P([[UP(), DOWN(), UP()], [OB(20), UNOB(21)], [ST, ST]], setup=S0 + [OB(21)]),
  P([[UP()], [SW(20, 1)], [SW(21, 1)]], setup=S0 + [OB(20, 2), OB(21, 2)]),
  P([[UP()], [SW(20, 1), SW(20, 0)], [SS(20)]], setup=S0 + [OB(20, 2)]),
  P([[DOWN()], [SW(20, 0, 5)], [OB(21, 2), SW(21, 1, 5)]], setup=S1 + [OB(20, 2)]),
  P([[UP()], [CLI(), OB(20)]], setup=[SRV()]),
  P([[UP(), DOWN()], [OB(20, 1), DR()]], setup=[SRV(), CLI(1)]),
  P([[DOWN()], [A(60), SY(61)], [REG(10)]], {1: [RE(1)]}, setup=on()),
  P([[UP(), DOWN()], [UP(2), DOWN(2)]], {20: [OB(21, 0, 2)]}, setup=S0 + [SRV(0, 2, 2), CLI(0, 2, 2), OB(20)]),
]
FIX = REQUESTS + NOTICES + AVAIL

WEIGHTS = {  # what a program is mostly about
  "requests": dict(req=10, kept=7, abort=4, hnd=1, prop=0, sig=0, reg=0, hear=0, read=1, updown=2, obs=0, wait=0),
  "status": dict(req=1, kept=0, abort=0, hnd=0, prop=9, sig=1, reg=6, hear=2, read=4, updown=1, obs=0, wait=0),
  "signals": dict(req=0, kept=0, abort=0, hnd=0, prop=2, sig=9, reg=6, hear=4, read=0, updown=1, obs=0, wait=0),
  "avail": dict(req=3, kept=1, abort=1, hnd=0, prop=1, sig=0, reg=2, hear=0, read=1, updown=8, obs=6, wait=4)}

def gen(r, prof=None):
    prof = prof or r.choice(sorted(WEIGHTS))
    w = WEIGHTS[prof]
    nth = r.choice([1, 2, 2, 3])
    single = nth == 1
    nsid = r.choice([1, 1, 1, 2])
    plain = r.random() < 0.5            # everything direct
    setup, stubs, proxies, bodies = [], {}, {}, {}
    for p in range(1, nsid + 1):
        for _ in range(r.choice([1, 1, 2])):
            i = len(stubs) + 1
            stubs[i] = (p, 0 if plain or r.random() < 0.6 else r.choice([2, 2, 3]))
            setup.append(SRV(stubs[i][1], p, i))
        for _ in range(r.choice([1, 1, 2])):
            i = len(proxies) + 1
            proxies[i] = (p, 0 if plain or r.random() < 0.6 else r.choice([1, 1, 3]))
            setup.append(CLI(proxies[i][1], p, i))
    stubOf = {p: min(i for i in stubs if stubs[i][0] == p) for p in range(1, nsid + 1)}
    starter = {p: r.randrange(nth) for p in range(1, nsid + 1)}
    drainer = {1: r.randrange(nth), 2: r.randrange(nth)}
    num = dict(r=60, c=10, n=20, l=30, k=40)
    def new(k, top):
        num[k] += 1
        return num[k] - 1 if num[k] - 1 < top else None
    def V(): return r.choice([0, 1, 1, 2, 3])
    # handlers: what each does
    pinged = set()
    for h in (1, 2, 3):
        b = []
        if r.random() < 0.2: b.append(VALID())
        if r.random() < 0.3: b.append(UD(70 + h))
        x = r.random()
        if x < 0.35: b.append(RE(80 + h))
        elif x < 0.45: b.append(RE(r.choice([-106, -104, -1])))
        elif x < 0.85: b.append(KEEP())
        if r.random() < 0.35: b.append(OA(40 + h))
        if r.random() < 0.2: b.append(r.choice([UD(90 + h), RE(95 + h), VALID()]))
        if r.random() < 0.15: b.append(SET(r.choice([1, 2]), 12, r.choice(sorted(stubs))))
        bodies[h] = b
        if r.random() < 0.3:
            bodies[40 + h] = [r.choice([("status", r.choice(sorted(proxies))), SG(11, 1), BC(1, 21, 1)])]
    if w["req"]:
        for i in sorted(stubs):
            for o in (1, 2):
                if r.random() < 0.6: setup.append(H(r.choice([1, 2]), o, i))
            if r.random() < 0.2: setup.append(H(3, 3, i))
    for p in range(1, nsid + 1):
        if r.random() < 0.75: setup.append(UP(stubOf[p]))
    asked, droppable = [], {}
    def up_body(o):
        """what a callback about operation o may do: only things about greater ones"""
        b = []
        for _ in range(r.choice([1, 1, 2])):
            x = r.random()
            st, px = r.choice(sorted(stubs)), r.choice(sorted(proxies))
            if o == 11 and x < 0.4: b.append(SET(V(), 12, st))
            elif o in (11, 12) and x < 0.5: b.append(BC(V(), r.choice([21, 22]), st))
            elif x < 0.7: b.append(SG(r.choice([11, 12]), st))
            elif x < 0.85: b.append(("status", px))
            elif single and plain and regs: b.append(UNREG(*r.choice(regs)))
            else: b.append(("spav", st))
        return b
    regs, hears, obss = [], [], []
    def one(t, mine):
        px = r.choice(sorted(proxies)); st = r.choice(sorted(stubs))
        kind = r.choices(sorted(w), [w[k] for k in sorted(w)])[0]
        x = r.random()
        if r.random() < (0.06 if plain else 0.2):
            es = [e for e in (1, 2) if drainer[e] == t]
            if es: return DR(r.choice(es))
        if kind == "req":
            if x < 0.08:
                p = proxies[px][0]
                if p not in pinged:
                    pinged.add(p)
                    return r.choice([A(50 + p, 3, px), PO(50 + p, 3, px), SY(50 + p, 3, 5, px)])
            n = new("r", 500)
            asked.append(n)
            if r.random() < 0.6: droppable[n] = t
            o = r.choice([1, 1, 2])
            if x < 0.6:
                mine.append((n, px)); return A(n, o, px)
            if x < 0.7:
                mine.append((n, px)); return PO(n, o, px)
            return SY(n, o, 0 if (x > 0.95 and not single) else 5, px)
        if kind == "kept" and asked:
            n = r.choice(asked[-3:])
            if droppable.get(n, t) != t: return VALID(0, st) if False else ("spav", st)
            q = r.choice([RE(V() + 20, n, st), RE(V() + 20, n, st), UD(V() + 30, n, st), VALID(n, st), OA(45, n, st), RE(-106, n, st)])
            if droppable.get(n) == t and r.random() < 0.3: q = DROP(n, st)
            return q
        if kind == "abort" and mine:
            return AB(*r.choice(mine))
        if kind == "hnd": return r.choice([H(r.choice([1, 2]), r.choice([1, 2]), st), UH(r.choice([1, 2]), st)])
        if kind == "prop":
            if x < 0.12: return REM(0 if not single else r.choice([0, 1]), r.choice([11, 12]), st)
            return SET(V(), r.choice([11, 11, 12]), st)
        if kind == "sig": return BC(V(), r.choice([21, 21, 22]), st)
        if kind == "reg":
            os_ = [21, 21, 22] if prof == "signals" else [11, 11, 12]
            if mine_regs[t] and x < 0.4: return UNREG(*r.choice(mine_regs[t]))
            if x > 0.92: return UNALL(r.choice(os_), px)
            c = new("c", 20)
            if c is None: return ("status", px)
            o = r.choice(os_)
            if r.random() < 0.35: bodies[c] = up_body(o)
            regs.append((c, px)); mine_regs[t].append((c, px))
            return REG(c, o, px)
        if kind == "hear":
            if hears and x < 0.4: return UNH(r.choice(hears), st)
            l = new("l", 40)
            if l is None: return ("spav", st)
            o = r.choice([21, 21, 22] if prof == "signals" else [11, 11, 12, 21])
            if r.random() < 0.4: bodies[l] = up_body(o)
            heards[t].append(l)
            if single: hears.append(l)
            return HEAR(l, o, st)
        if kind == "read":
            if x < 0.2: return SG(r.choice([11, 12]), st)
            n = new("r", 500)
            return r.choice([GS, GA])(n, r.choice([11, 12]), px)
        if kind == "updown":
            ps = [p for p in starter if starter[p] == t]
            if not ps: return ("status", px)
            return r.choice([UP, DOWN])(stubOf[r.choice(ps)])
        if kind == "obs":
            if mine_obs[t] and x < 0.3: return UNOB(*r.choice(mine_obs[t]))
            n = new("n", 30)
            if n is None: return ("status", px)
            k = r.choice([0, 0, 1, 2, 2])
            mine_obs[t].append((n, px))
            if k == 2: obss.append((n, px, t))
            elif r.random() < 0.4:
                bodies[n] = [r.choice([("status", px), SG(11, st), ("spav", st), BC(1, 21, st)])]
            return OB(n, k, px)
        if kind == "wait":
            mo = [(n, q) for n, q, u in obss if u == t]
            if mo:
                n, q = r.choice(mo)
                if x < 0.7: return SW(n, r.choice([0, 1]), 5 if x < 0.55 or single else 0, q)
                return (SS if x > 0.93 else SC)(n, q)
        return r.choice([("status", px), ("spav", st)])
    mine_regs = {t: [] for t in range(nth)}
    heards = {t: [] for t in range(nth)}
    mine_obs = {t: [] for t in range(nth)}
    threads = []
    for t in range(nth):
        mine = []
        if not single and w["reg"] and r.random() < 0.8:
            for _ in range(r.choice([1, 2])):
                c = new("c", 20)
                if c is None: break
                px = r.choice(sorted(proxies))
                setup.append(REG(c, r.choice([21, 22] if prof == "signals" else [11, 11, 12]), px))
                regs.append((c, px)); mine_regs[t].append((c, px))
        if not single and w["req"] > 3 and r.random() < 0.8:
            n = new("r", 500); px = r.choice(sorted(proxies))
            asked.append(n); mine.append((n, px)); setup.append(A(n, r.choice([1, 2]), px))
        threads.append([one(t, mine) for _ in range(r.choice([6, 9, 12]) if single else r.choice([2, 3, 4]))])
    return P(threads, bodies, setup=setup)

PROFILE = dict(C11="requests", C12="requests", C13="status", C14="signals", C15="avail")
PART = dict(C11=REQUESTS, C12=REQUESTS, C13=NOTICES, C14=NOTICES, C15=AVAIL)
def check(ctx, prop):
    n = [0]
    def g(r):
        n[0] += 1
        return gen(r, PROFILE[prop] if n[0] % 4 else None)
    # the programs of the other properties too, with fewer schedules
    standard(ctx, "cs", "CS", PART[prop], g, nrand=(500, 3000), runs_fix=(600, 6000), runs_rand=(30, 200), mclimit=(12, 20))
