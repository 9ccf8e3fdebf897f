"""C22: identifiers and keys (specs/Keys.tla)."""
import random
from prog import P, standard

al = lambda p, n: ("alloc", p, n)
ALL = [(a, b) for a in range(9) for b in range(9)]
def allpairs(p, op, seed):
    l = list(ALL); random.Random(seed).shuffle(l)
    return P([[(op, p, a, b) for a, b in l]])
FIX = [
  P([[al(1, 2)], [al(1, 2)]]), P([[al(3, 2)], [al(3, 1)], [al(3, 1)]]),
  P([[al(2, 1)], [al(2, 1)]]),
  P([[al(2, 3)], [al(2, 3)], [al(2, 2)]], setup=[al(2, 251)], post=[al(2, 1)]),
  P([[al(2, 2)], [al(2, 2)], [al(2, 2)]], setup=[al(2, 254)], post=[al(2, 1)]),
  P([[al(2, 2)], [al(2, 2)]], setup=[al(2, 255), al(2, 253)], post=[al(2, 1)]),
  P([[al(1, 1), ("reclaim", 1, 0), al(1, 1)], [al(1, 2)]]),
  P([[al(3, 1), ("reclaim", 3, 1), al(3, 1)], [al(3, 2)], [al(1, 1), al(2, 1)]]),
  P([[("lt", 4, 0, 1), ("lt", 4, 1, 3), ("lt", 4, 3, 0), ("lt", 4, 1, 0)]]),
  P([[("lt", 5, 1, 3), ("lt", 5, 3, 1), ("put", 5, 1), ("put", 5, 3), ("has", 5, 3), ("size", 5)]]),
  P([[("put", 4, k) for k in range(9)] + [("size", 4)] + [("has", 4, k) for k in range(9)]]),
  P([[("put", 5, k) for k in (8, 0, 7, 1, 6, 2, 5, 3, 4)] + [("size", 5)] + [("has", 5, k) for k in range(9)]]),
] + [P([[("valid", p, k) for k in range(9)]]) for p in (4, 5)] \
  + [P([[("move", p, k, j) for k in range(9) for j in (0, 1, 4)]]) for p in (4, 5)] \
  + [allpairs(p, op, s) for p in (4, 5) for op in ("lt", "eq", "ne") for s in range(4 if op == "lt" else 1)]

def gen(r):
    if r.random() < 0.3:
        p = r.choice([1, 2, 3])
        return P([[al(r.choice([p, p, p, 1, 2, 3]), r.randint(1, 3)) for _ in range(r.choice([1, 2]))] for _ in range(r.choice([2, 3, 4]))],
                 setup=[al(2, r.randint(240, 260))] if p == 2 else [])
    p = r.choice([4, 5])
    l = []
    for _ in range(r.choice([10, 20, 40])):
        o = r.choice(["put", "put", "has", "del", "size", "lt", "lt", "eq", "ne", "valid", "move"])
        l.append((o, p, r.randrange(9), r.randrange(9) if o in ("lt", "eq", "ne", "move") else 0))
    return P([l])

def check(ctx, prop):
    standard(ctx, "keys", "Keys", FIX, gen, nrand=(200, 2000), runs_fix=(400, 4000), runs_rand=(40, 400), mclimit=(6, 8))
