"""C19: thread pools (specs/Pool.tla)."""
from prog import P, standard

MK = lambda kind, n: ("mk", kind, n)
def R(a, prio=0): return ("run", prio, a)
SD, AC, DE = ("shutdown",), ("active",), ("destroy",)
WS = lambda a: ("waitstop", 0, a)
FIX = []
for k in (1, 2, 3):
    FIX += [
      P([[R(1), R(2)], [R(3)]], setup=[MK(k, 1)], post=[SD, R(4), SD, DE]),
      P([[R(1), R(2)], [R(103)]], setup=[MK(k, 2)], post=[DE]),
      P([[R(1)], [R(2)], [R(3)]], setup=[MK(k, 2)], post=[AC, SD, DE]),
      P([[R(1), R(2)], [R(3), SD]], setup=[MK(k, 1)], post=[DE]),
      P([[R(1), SD, R(3)], [R(2)]], setup=[MK(k, 2)], post=[DE]),
      P([[R(1), R(2)], [SD]], setup=[MK(k, 1)]),
      P([[SD], [R(1), R(2), SD]], setup=[MK(k, 2)]),
      P([[SD, R(2)], [R(1)]], setup=[MK(k, 1)], post=[DE]),
      # tasks that run until they are asked to stop
      P([[R(1), SD]], {1: [WS(1)]}, setup=[MK(k, 1)], post=[DE]),
      P([[R(1), R(2)], [SD]], {1: [WS(1)], 2: [WS(2)]}, setup=[MK(k, 1)]),
      P([[R(1), R(2)], [SD]], {1: [WS(1)], 2: [WS(2)]}, setup=[MK(k, 2)]),
      P([[R(1), R(102)], [SD]], {1: [WS(1)], 102: [WS(102)]}, setup=[MK(k, 2)]),
      P([[R(1), R(2), R(3)]], {1: [WS(1)], 2: [WS(2)]}, setup=[MK(k, 2)], post=[SD]),
      P([[R(1), R(2), R(3)]], {1: [WS(1)]}, setup=[MK(k, 2)], post=[DE]),
      # tasks that submit tasks
      P([[R(1)]], {1: [R(2), R(3)], 2: [R(4)]}, setup=[MK(k, 1)], post=[SD]),
      P([[R(1), SD]], {1: [R(2), AC]}, setup=[MK(k, 2)]),
      P([[R(1), R(2), SD]], {301: [R(3)], 302: [R(4)]}, setup=[MK(k, 1)]),
      P([[R(1), SD]], {1: [WS(1), R(3)], 201: [R(2), AC]}, setup=[MK(k, 1)]),
      P([[R(1), R(2)], [R(3), R(4)], [R(5), R(106)]], setup=[MK(k, 3)], post=[DE]),
    ]
FIX += [
  P([[R(1, 1), R(2, 3), R(3, 2), R(4, 5)]], setup=[MK(3, 1)], post=[SD]),
  P([[R(1, 1)], [R(2, 2)], [R(3, 3)]], setup=[MK(3, 1)], post=[SD]),
  P([[R(1, 5), R(2, 0), R(3, 0), R(4, 1)], [R(5, 1), R(6, 9)]], {1: [R(7, 0), R(8, 3), R(9, 2)]}, setup=[MK(3, 1)], post=[SD]),
  P([[R(1, 5), R(2, 1), R(3, 2), SD]], {1: [WS(1)]}, setup=[MK(3, 1)]),
  P([[R(1), ("max", 0, 2), R(2), R(3)]], {1: [WS(1)]}, setup=[MK(1, 1)], post=[SD]),
]

def gen(r):
    k, n = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 2, 3])
    num = [0]
    def new():
        num[0] += 1
        return num[0]
    bodies = {}
    def task(depth=0):
        a = new()
        if r.random() < 0.15: a += 100
        b = []
        if depth < 2 and r.random() < 0.2: b.append(task(depth + 1))
        if depth == 0 and r.random() < 0.2: b.append(WS(a))
        if b: bodies[a] = b
        if a < 100 and r.random() < 0.1: bodies[300 + a] = [R(new())]
        if r.random() < 0.1: bodies[200 + a] = [r.choice([AC, R(new())])]
        return R(a, r.choice([0, 0, 1, 2, 3]) if k == 3 else 0)
    ths = []
    for _ in range(r.choice([1, 2, 2, 3])):
        ths.append([r.choice([SD, AC]) if r.random() < 0.15 else task() for _ in range(r.choice([1, 2, 3]))])
    posts = [[SD], [SD, R(new()), SD, DE], [SD, DE]]
    if not any(o[0] != "waitstop" for b in bodies.values() for o in b):
        posts.append([DE])      # tasks do not use a pool that is being destroyed
    return P(ths, bodies, setup=[MK(k, n)], post=r.choice(posts))

def check(ctx, prop):
    standard(ctx, "pool", "Pool", FIX, gen, nrand=(200, 1000), mclimit=(6, 8))
