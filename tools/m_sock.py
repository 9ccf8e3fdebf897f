"""C17: buffers over local sockets (specs/Sock.tla)."""
from prog import P, standard

def I(p=1): return ("init", p)
def R(p=1): return ("run", p)
def ST(p=1): return ("stop", p)
def RN(p=1): return ("running", p)
def S(id, size, p=1): return ("send", p, size, id)
def STATUS(p=1): return ("status", p)
def RO(id, size, p=1): return ("rawopen", p, size, id)
def RS(id, n, p=1): return ("rawsend", p, n, id)
def RC(id, p=1): return ("rawclose", p, 0, id)
HUGE = 1000000000
SIZES = [0, 1, 3, 4, 5, 100, 4096, 65535, 65536, 65537, 70000, 131072, 212992, 500000]

FIX = [
  P([[R()], [S(1, 5), S(2, 0), S(3, 100)]], setup=[I()]),
  P([[R()], [S(1, 5), S(2, 3)], [S(3, 4), S(4, 1)]], setup=[I()]),
  P([[R()], [S(1, 70000)], [S(2, 500000)]], setup=[I()]),
  P([[R()], [S(1, 65536), S(2, 65537), S(3, 65535), S(4, 212992)]], setup=[I()]),
  P([[R()], [S(1, 4096), STATUS()], [S(2, 4096), S(3, 8192)], [S(4, 300000), S(5, 1)]], setup=[I()]),
  # nobody there
  P([[S(1, 5), STATUS(), I(), STATUS(), R()], [S(2, 5), S(3, 5)]]),
  P([[R()], [S(1, 5, 2), S(2, 5), STATUS(2), STATUS()]], setup=[I()]),
  P([[R()], [R(3), S(1, 5)], [STATUS(), RN(), RN(3)]], setup=[I(), I(3)]),
  # stopping and starting again
  P([[R(), I(), R()], [S(1, 5), ST(), S(2, 5), S(3, 5)]], setup=[I()]),
  P([[R(), I(), R()], [ST()], [S(1, 70000), S(2, 5), S(3, 5)]], setup=[I()]),
  P([[R(), RN(), STATUS(), I(), STATUS(), R()], [ST(), ST()], [S(1, 300000)]], setup=[I()]),
  P([[R()], [ST()]], setup=[I()]),
  P([[R()], [ST(), RN(), STATUS()], [RN()]], setup=[I()], post=[RN(), I(), STATUS(), ST(), STATUS(), I(), ST(), I()]),
  P([[R(), STATUS()], [ST()], [ST(), S(1, 5)]], setup=[I()]),
  P([[R(), I(), R(), I(), R()], [S(1, 5), S(2, 5), S(3, 5)]], {1: [ST()], 2: [ST()]}, setup=[I()]),
  P([[R(), I(3), R(3)], [S(1, 5), ST(), S(2, 5), S(3, 5), STATUS()]], setup=[I()]),
  P([[R()], [R(2)], [S(1, 70000), S(2, 70000, 2), ST(2), S(3, 5, 2), S(4, 5)]], setup=[I(), I(2)]),
  P([[ST(), R(), I(), R()], [S(1, 5), RN()]], setup=[I()]),
  P([[R(), I(), R()], [ST(), RN()], [RN()]], setup=[I()]),
  P([[R(), I(3), R(3)], [ST(), RN(3)], [RN()]], setup=[I()]),
  P([[I(), R()], [I(2), R(2)], [S(1, 5), S(2, 5, 2)]]),
  # callbacks that send
  P([[R()], [R(2)], [S(1, 5), S(2, 70000)]], {1: [S(11, 5, 2), STATUS(2)], 2: [S(12, 200000, 2)], 11: [S(13, 5)]}, setup=[I(), I(2)]),
  # peers that do not finish, or slowly
  P([[R()], [RO(1, 5), RC(1), S(2, 5), RO(3, 5), RS(3, 2), RC(3), S(4, 5)]], setup=[I()]),
  P([[R()], [RO(1, 5), RS(1, 4), RC(1), S(2, 5), RO(3, 5), RS(3, 6), RC(3), S(4, 5)]], setup=[I()]),
  P([[R()], [RO(1, 5), RS(1, 2), S(2, 5), RS(1, 4), S(3, 5), RS(1, 3), S(4, 5)]], setup=[I()]),
  P([[R()], [RO(1, 5), RS(1, 2)], [S(2, 5), S(3, 5)]], setup=[I()]),
  P([[R()], [RO(1, 70000), RS(1, 40000)], [S(2, 70000), S(3, 0), S(4, 5)]], setup=[I()]),
  P([[R()], [RO(1, HUGE), RS(1, 4), RS(1, 1000), RC(1)], [S(2, 5), S(3, 5)]], setup=[I()]),
  P([[R()], [RO(1, HUGE), RS(1, 70000)], [S(2, 5), ST(), S(3, 5)]], setup=[I()]),
  P([[R()], [RO(1, 0), RS(1, 4), S(2, 1), RO(3, 0), RC(3), S(4, 0)]], setup=[I()]),
  P([[R()], [RO(1, 5), RS(1, 9), RC(1), RO(2, 5), RS(2, 1), RS(2, 1), RS(2, 1), RS(2, 1), RS(2, 1), RS(2, 4)]], setup=[I()]),
  P([[R(), I(), R()], [RO(1, 5), RS(1, 6), ST(), S(2, 5), RS(1, 3), RC(1)]], setup=[I()]),
  # many peers at once
  P([[R()], [RO(i, 5) for i in range(1, 29)] + [S(50, 5)] + [RS(i, 9) for i in range(1, 29)]], setup=[I()]),
  P([[R()], [RO(i, 5) for i in range(1, 31)] + [S(50, 5)] + [RC(1), RS(2, 9)] + [S(51, 5)]], setup=[I()]),
  P([[R()], [x for i in range(1, 31) for x in (RO(i, 5), RS(i, 5))] + [RO(31, 5), RS(31, 9)] + [RC(i) for i in range(1, 31)] + [S(51, 5)]], setup=[I()]),
]

def gen(r):
    num = [0]
    def new():
        num[0] += 1
        return num[0]
    big = r.random() < 0.4
    def size():
        x = r.random()
        if x < 0.5: return r.choice([0, 1, 3, 4, 5, 100])
        if x < 0.75 or not big: return r.choice([4096, 5000, 20000])
        return r.choice(SIZES)
    two = r.random() < 0.3
    addr = lambda: r.choice([1, 1, 2]) if two else 1
    stops = r.random() < 0.5
    ths = [[R()] if not stops else r.choice([[R(), I(), R()], [R(), I(), R(), STATUS()], [R(), I(3), R(3)], [R(), RN(), I(), R(), I(), R()]])]
    if two: ths.append([R(2)])
    bodies = {}
    for k in range(r.choice([1, 2, 2, 3])):
        ops = []
        raws = []
        for _ in range(r.choice([1, 2, 3, 4])):
            x = r.random()
            if x < 0.5:
                i = new()
                ops.append(S(i, size(), addr()))
                if r.random() < 0.15:
                    # (a receiver that sends to itself may wait for itself)
                    c = [STATUS(2) if two else RN(3), RN()] if ops[-1][1] == 1 else [RN()] + ([ST()] if stops else [])
                    if two and ops[-1][1] == 1: c.append(S(new(), r.choice([0, 5, 5000]), 2))
                    bodies[i] = [r.choice(c)]
            elif x < 0.75:
                i, n = new(), r.choice([0, 1, 5, 3000])
                a = addr()
                ops.append(RO(i, n, a))
                left = 4 + n
                for _ in range(r.choice([0, 1, 2, 3])):
                    m = r.choice([1, 2, 4, left, left, left // 2])
                    m = max(0, min(m, left))
                    if m == 0: continue
                    left -= m
                    raws.append(RS(i, m, a))
                if r.random() < 0.5: raws.append(RC(i, a))
            elif x < 0.85 and stops:
                ops.append(ST(r.choice([1, 1, 3])) if not two else ST(r.choice([1, 1, 2, 3])))
            else:
                ops.append(r.choice([STATUS(addr()), RN(addr())]))
            while raws and r.random() < 0.7: ops.append(raws.pop(0))
        ths.append(ops + raws)
    if r.random() < 0.2: ths[0] = [I()] + ths[0]; setup = []
    else: setup = [I()]
    if two: setup.append(I(2))
    return P(ths, bodies, setup=setup)

def check(ctx, prop):
    standard(ctx, "sock", "Sock", FIX, gen, nrand=(200, 1000), mclimit=(6, 7),
             opts=("--ptime", "0.01", "--pspurious", "0.2", "--pshort", "0.3"))
