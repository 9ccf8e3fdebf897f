"""C16: services shared by processes over local sockets (specs/IPC.tla)."""
from prog import P, standard

def MKS(): return ("mks", 0)
def MKC(c=1): return ("mkc", c)
def L(e=0, gen=0): return ("loop", e, gen)
def KILL(e=0, polite=0): return ("kill", e, polite)
UP, DOWN = ("start", 0), ("stop", 0)
def W(c=1): return ("waitav", c)
def WG(c=1): return ("waitgone", c)
def SL(ms=700): return ("sleep", 0, ms)
def A(r, c=1, o=1): return ("async", c, r, o)
def SY(r, c=1, o=1, ms=0): return ("sync", c, r, o * 1000 + ms)
def AB(r, c=1): return ("abort", c, r)
def REG(k, c=1, o=11): return ("reg", c, k, o)
def UNREG(k, c=1): return ("unreg", c, k)
def GS(r, c=1): return ("getst", c, r, 11)
def ST(c=1): return ("status", c)
def RE(v, r=0): return ("resp", 0, r, v)
def UD(v, r=0): return ("upd", 0, r, v)
def KEEP(): return ("keep", 0, 0)
def DROP(r): return ("drop", 0, r)
def SET(v): return ("setst", 0, 11, v)
def BC(v): return ("bcast", 0, 21, v)

def net(threads, bodies=None, clients=(1,), up=True, gens=1, post=(), setup=None):
    if setup is None:
        setup = [MKS()] + [MKC(c) for c in clients] + ([UP] if up else [])
    return P([[L(0, g) for g in range(gens)]] + [[L(c)] for c in clients] + threads, bodies, setup=setup, post=post)

FIX = [
  # one client
  net([[W(), A(10), SY(11), SY(12, 1, 2), A(13, 1, 2)]], {10: [UD(1), RE(2)], 11: [RE(3)]}),
  net([[W(), A(10), AB(10), A(11), SY(12, 1, 1, 50)]], {10: [KEEP()], 11: [RE(-106)], 12: [KEEP()]}, post=[RE(5, 10), RE(6, 12), DROP(10)]),
  net([[W(), REG(200), GS(20), UNREG(200), GS(21)], [SET(1), SET(2), SET(2)]]),
  net([[W(), REG(200, 1, 21), UNREG(200), REG(201, 1, 21)], [BC(1), BC(2)]]),
  net([[MKC(), W(), SY(10)]], {10: [RE(1)]}, setup=[MKS(), UP]),
  net([[ST(), W(), ST()], [MKS(), UP]], setup=[MKC()]),
  net([[W()], [UP, DOWN, UP]], up=False),
  net([[W(), SY(10), A(11)], [DOWN]], {10: [KEEP()], 11: [RE(1)]}),
  net([[W(), A(10), REG(200), SY(11)], [DOWN, UP, SET(1)]], {10: [KEEP()], 11: [RE(1)]}, post=[RE(7, 10), SET(3)]),
  # several clients
  net([[W(), A(10), AB(10)], [W(2), A(20, 2), SY(21, 2)]], {10: [KEEP()], 20: [KEEP()], 21: [RE(1)]}, (1, 2), post=[RE(2, 20), RE(1, 10)]),
  net([[W(), A(10), A(11)], [W(2), A(20, 2), A(21, 2)]], {10: [KEEP()], 11: [RE(11)], 20: [KEEP()], 21: [RE(21)]}, (1, 2), post=[RE(20, 20), UD(9, 10), RE(10, 10)]),
  net([[W(), SY(10)], [W(2), SY(20, 2)], [W(3), SY(30, 3)]], {10: [UD(9), RE(10)], 20: [RE(20)], 30: [RE(30)]}, (1, 2, 3)),
  net([[W(), A(10), SL(5), AB(10)], [W(2), A(20, 2), SL(5), AB(20, 2)]], {10: [KEEP()], 20: [KEEP()]}, (1, 2)),
  net([[W(), REG(200)], [W(2), REG(201, 2), UNREG(201, 2)], [SET(1), SET(2)]], clients=(1, 2)),
  net([[W(), REG(200, 1, 21)], [W(2), REG(201, 2)], [SET(1), BC(2), SET(3)]], {}, (1, 2), post=[BC(3), SET(4)]),
  net([[W()], [W(2)]], clients=(1, 2), up=False, post=[UP, DOWN, ST(1), ST(2)]),
  # a client goes
  net([[W(), A(10), KILL(1)], [W(2), SY(20, 2)]], {10: [KEEP()], 20: [RE(20)]}, (1, 2), post=[RE(1, 10), SY(21, 2)]),
  net([[W(), REG(200), KILL(1)], [W(2), REG(201, 2)], [SET(1), SET(2)]], {}, (1, 2), post=[SET(3), SET(4)]),
  net([[W(), REG(200, 1, 21), KILL(1, 1)], [W(2), REG(201, 2, 21)], [BC(1)]], {}, (1, 2), post=[BC(2), DOWN, UP]),
  net([[W(), A(10), A(11), KILL(1)], [W(2), A(20, 2)]], {10: [UD(1), RE(1)], 11: [UD(2), RE(2)], 20: [UD(20), RE(21)]}, (1, 2)),
  net([[W(), KILL(1)], [W(2)], [DOWN, UP, DOWN]], clients=(1, 2)),
  # the server goes
  net([[W(), A(10), SY(11)], [SL(30), KILL(0)]], {10: [KEEP()], 11: [KEEP()]}, post=[ST(), A(12)]),
  net([[W(), SY(10), SY(11)], [W(2), REG(200, 2)], [KILL(0)]], {10: [RE(1)], 11: [RE(2)]}, (1, 2), post=[ST(1), ST(2), GS(20, 2)]),
  net([[W(), REG(200), SL(2500), SY(10), REG(201)], [W(), SET(1), KILL(0), SL(), WG(), MKS(), UP, SET(2)]], {10: [RE(1)]}, gens=2, post=[SET(3)]),
  net([[W(), A(10), SL(2500), A(11)], [W(2), SL(2500), A(20, 2)], [W(), W(2), SL(10), KILL(0), SL(), WG(), WG(2), MKS(), UP]],
      {10: [KEEP()], 11: [RE(11)], 20: [RE(20)]}, (1, 2), gens=2, post=[RE(1, 10)]),
  # callbacks that do things
  net([[W()]], {403: [A(10), REG(200)], 10: [RE(1)]}, up=False, post=[UP, SET(1), DOWN, UP]),
  net([[W(), A(10)]], {10: [RE(1)], 110: [A(11), REG(200)], 11: [SET(5), RE(2)], 200: [ST()]}),
  net([[W(), REG(200)], [W(2), REG(201, 2)]], {200: [A(10)], 10: [RE(1)], 201: [UNREG(201, 2)]}, (1, 2), post=[SET(1), SET(2)]),
]

def gen(r):
    nc = r.choice([1, 2, 2, 2, 3])
    cs = list(range(1, nc + 1))
    serverless = r.random() < 0.12       # the server comes later
    restart = r.random() < 0.12
    dies = restart or r.random() < 0.12
    bodies, ths = {}, []
    setup = [] if serverless else [MKS()]
    for c in cs: setup.append(MKC(c))
    up = not serverless and r.random() < 0.8
    if up: setup.append(UP)
    asked = []
    doomed = {c for c in cs if r.random() < (0.2 if nc > 1 else 0.05)}
    for c in cs:
        num = [10 * c]
        mine, regd, ops = [], {}, []
        k = [200 + 10 * c]
        if r.random() < 0.85: ops.append(W(c))
        if doomed and c not in doomed and r.random() < 0.3: ops.append(SL(20))
        def new():
            num[0] += 1
            return num[0]
        for _ in range(r.choice([2, 3, 4, 5])):
            x = r.random()
            if x < 0.45 and num[0] < 10 * c + 9:
                n = new()
                y = r.random()
                ops.append(A(n, c) if y < 0.55 else SY(n, c, 1, r.choice([40, 40, 0 if y < 0.7 and not dies else 40])) if y < 0.9 else A(n, c, 2))
                b = []
                if r.random() < 0.3: b.append(UD(60 + n))
                z = r.random()
                if z < 0.45: b.append(RE(n))
                elif z < 0.8: b.append(KEEP())
                elif z < 0.9: b.append(RE(-106))
                if r.random() < 0.1: b.append(r.choice([SET(n), BC(n)]))
                if b: bodies[n] = b
                if ops[-1][0] == "async":
                    mine.append(n)
                    if r.random() < 0.15: bodies[100 + n] = [r.choice([ST(c), A(new(), c, 2)])]
                asked.append(n)
            elif x < 0.55 and mine: ops.append(AB(r.choice(mine), c))
            elif x < 0.75:
                o = r.choice([11, 11, 21])
                if o in regd:
                    ops.append(UNREG(regd.pop(o), c))
                else:
                    ops.append(REG(k[0], c, o)); regd[o] = k[0]; k[0] += 1
            elif x < 0.85 and num[0] < 10 * c + 9: ops.append(GS(new(), c))
            elif x < 0.92: ops.append(ST(c))
            else: ops.append(SL(r.choice([1, 20, 600])))
        if c in doomed: ops.append(KILL(c, r.choice([0, 0, 1])))
        ths.append(ops)
    srv = []
    if serverless: srv += [MKS(), UP]
    elif not up and r.random() < 0.9: srv.append(UP)
    if r.random() < 0.5: srv = [SL(r.choice([1, 20, 30]))] + srv
    for _ in range(r.choice([1, 2, 3, 4])):
        x = r.random()
        if x < 0.35: srv.append(SET(r.choice([1, 2, 3])))
        elif x < 0.55: srv.append(BC(r.choice([4, 5])))
        elif x < 0.8 and asked:
            n = r.choice(asked)
            srv.append(r.choice([RE(n + 40, n), RE(n + 40, n), UD(n + 50, n), DROP(n)]))
        elif x < 0.9: srv += r.choice([[DOWN], [DOWN, UP], [UP]])
        else: srv.append(SL(r.choice([1, 20])))
    post = []
    if dies:
        srv = [o for o in srv if o[0] != "stop"]
        srv.append(KILL(0))
        if restart:
            srv += [SL()] + [SL(600), MKS(), UP, SET(r.choice([1, 2]))]
    ths.append(srv)
    alive = [c for c in cs if c not in doomed]
    for _ in range(r.choice([0, 1, 2])):
        if not dies and asked and r.random() < 0.5: post.append(r.choice([RE, RE, UD])(90, r.choice(asked)))
        elif not dies and r.random() < 0.5: post.append(r.choice([SET(7), BC(8), DOWN, UP]))
        elif alive: post.append(r.choice([ST, lambda c: A(10 * c, c, 2)])(r.choice(alive)) if r.random() < 0.7 else ST(alive[0]))
    seen, q = set(), []
    for o in post:          # each request number once
        if o[0] == "async":
            if o[2] in seen: continue
            seen.add(o[2])
        q.append(o)
    return net(ths, bodies, cs, gens=2 if restart else 1, post=q, setup=setup)

def check(ctx, prop):
    standard(ctx, "ipc", "IPC", FIX, gen, nrand=(250, 2500), runs_fix=(500, 6000), runs_rand=(40, 300),
             traces=(900, 9000), mclimit=(6, 8), opts=("--ptime", "0.005", "--pspurious", "0.3"))
