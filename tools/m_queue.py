"""C20: blocking queues (specs/Queue.tla)."""
from prog import P, standard

W, WF, TP = ("wait", 1), ("waitfor", 1, 10), ("trypop", 1)
push = lambda v, p=1: ("push", p, v)
FIX = [
  P([[W, W], [push(1), push(2)], [push(3)]]),
  P([[W], [W], [push(1), push(2)]]),
  P([[W], [("close", 1)]]),
  P([[W], [W], [("close", 1)]]),
  P([[W], [push(1), ("close", 1)]]),
  P([[W], [push(1)], [("close", 1)]]),
  P([[W, ("isclosed", 1)], [("close", 1), ("reopen", 1)]]),
  P([[W], [("close", 1), ("reopen", 1)], [push(1)]]),
  P([[W], [("close", 1), ("clear", 1), ("reopen", 1), ("size", 1)], [push(1)]]),
  P([[WF], [push(1)]]),
  P([[WF, WF], [push(1), ("close", 1)]]),
  P([[("waituntil", 1, 10), ("waituntil", 1, 0)], [push(1)], [W]]),
  P([[TP, TP], [push(1), push(2)]]),
  P([[W], [W], [W], [("pushseq", 1, 1, 3)]]),
  P([[W], [W], [("pushseq", 1, 1, 2), ("close", 1)]]),
  P([[("pushm", 1, 1), ("size", 1), ("empty", 1), ("clearcb", 1), ("empty", 1), push(2), ("close", 1), push(3), TP, W, ("size", 1), ("reopen", 1), TP, TP]]),
  P([[push(2, 2), push(5, 2), ("pushm", 2, 3), ("trypop", 2), ("wait", 2), ("waitfor", 2, 5), ("waitfor", 2, 5)]]),
  P([[("pushseq", 2, 4, 3), ("push", 2, 1), ("trypop", 2), ("clearcb", 2), ("size", 2)]]),
  P([[("wait", 2), ("wait", 2)], [push(1, 2), push(3, 2)], [push(2, 2)]]),
  P([[("wait", 2)], [push(1, 2), push(3, 2), ("trypop", 2)], [("close", 2), ("reopen", 2)]]),
]

def gen(r):
    n = [0]
    def v():
        n[0] += 1
        return n[0]
    order = list(range(1, 60)); r.shuffle(order)
    def o(p, consumer):
        c = r.choice(["wait", "waitfor", "waituntil", "trypop", "wait"] if consumer else
                     ["push", "push", "pushm", "pushm", "pushseq", "close", "reopen", "clear", "clearcb", "size", "empty", "isclosed", "trypop"])
        if c in ("push", "pushm"): return (c, p, order[v()])
        if c == "pushseq": return (c, p, 100 + 10 * v(), r.randint(0, 3))
        if c in ("waitfor", "waituntil"): return (c, p, r.choice([0, 5, 20]))
        return (c, p)
    p = r.choice([1, 1, 2])
    ths = []
    for _ in range(r.choice([2, 3, 3, 4])):
        cons = r.random() < 0.5
        ths.append([o(p, cons or r.random() < 0.15) for _ in range(r.choice([1, 2, 3]))])
    return P(ths)

def check(ctx, prop):
    standard(ctx, "queue", "Queue", FIX, gen, nrand=(120, 600))
