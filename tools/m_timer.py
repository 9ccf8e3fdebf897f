"""C18: timers (specs/Timer.tla)."""
from prog import P, standard

RUN = lambda p=1: [("run", p)]
def ST(a, ms, p=1): return ("start", p, a, ms)
def SO(a, ms, p=1): return ("starton", p, a, ms)
def STOP(a, p=1): return ("stop", p, a)
def STOPON(a, p=1): return ("stopon", p, a)
def RS(a, p=1): return ("restart", p, a)
def RN(a, p=1): return ("running", p, a)
def CY(a, v=1, p=1): return ("cyc", p, a, v)
def PO(k, p=1): return ("post", p, k)
def SL(ms): return ("sleep", 0, 0, ms)
def AF(k, ms, p=1): return ("after", p, k, ms)
def AO(k, ms, p=1): return ("afteron", p, k, ms)
def DEL(a, p=1): return ("del", p, a)
HALT = lambda p=1: ("halt", p)
FIX = [
  P([RUN(), [PO(40)]], {40: [ST(1, 10), RN(1)], 1: [RN(1)]}),
  P([RUN(), [PO(40)]], {40: [ST(1, 10), ST(2, 5), ST(3, 20)]}),
  P([RUN(), [PO(40)]], {40: [ST(1, 10), ST(2, 10), STOP(1), RN(1), RN(2)]}),
  P([RUN(), [PO(40)]], {40: [CY(1), ST(1, 10)], 1: [STOP(1), RN(1)]}),
  P([RUN(), [PO(40), SL(25), PO(41)]], {40: [CY(1), ST(1, 10)], 41: [STOP(1)]}),
  # starting, restarting and stopping in callbacks
  P([RUN(), [PO(40)]], {40: [ST(1, 10), ST(2, 20), ST(3, 30)], 1: [STOP(2), RS(3), RN(3)]}),
  P([RUN(), [PO(40)]], {40: [ST(1, 10), ST(2, 20)], 1: [RS(1), ST(2, 5)]}),
  P([RUN(), [PO(40)]], {40: [ST(1, 10)], 1: [ST(1, 7), RN(1)]}),
  P([RUN(), [PO(40)]], {40: [ST(1, 10), ST(2, 10)], 1: [DEL(1), DEL(2)]}),
  P([RUN(), [PO(40)]], {40: [CY(1), ST(1, 10), ST(2, 15)], 1: [CY(1, 0), DEL(2)]}),
  P([RUN(), [PO(40)]], {40: [RS(1), RN(1), STOP(1), ST(1, 5), STOP(1), RS(1), RN(1)]}),
  P([RUN(), [PO(40), SL(20), PO(41)]], {40: [ST(1, 10)], 41: [RN(1), RS(1), RN(1)]}),
  # a busy processor
  P([RUN(), [PO(40), SL(5), PO(41)]], {40: [ST(1, 30)], 41: [ST(2, 5), SL(40)]}),
  P([RUN(), [PO(40), SL(5), PO(41)]], {40: [ST(1, 20), ST(2, 30)], 41: [ST(3, 5), STOP(1), SL(40), RS(2)]}),
  P([RUN(), [PO(40), SL(5), PO(41), PO(42)]], {40: [CY(1), ST(1, 10)], 41: [SL(25)], 42: [RN(1)]}),
  P([RUN(), [PO(40), PO(41), PO(42)]], {40: [ST(1, 5)], 41: [SL(10)], 42: [RN(1)]}),
  P([RUN(), [PO(40), SL(15), PO(41)]], {40: [ST(1, 10), ST(2, 20), ST(3, 30)], 1: [SL(25)], 41: [STOP(3)]}),
  # asked for by other threads
  P([RUN(), [SO(1, 10), AO(50, 5)], [SL(5), STOPON(1)]]),
  P([RUN(), [SO(1, 10), SO(1, 20)], [AO(50, 10), PO(40)]], {40: [RN(1), AF(51, 3)]}),
  P([RUN(), RUN(2), [SO(1, 10), SO(2, 10, 2)], [PO(40), PO(41, 2)]], {40: [ST(3, 5), SL(10)], 41: [ST(4, 7, 2), SL(2)]}),
  P([RUN(), [SO(1, 10), SL(5), HALT()], [PO(40)]], {40: [ST(2, 5)]}),
  # signal timers
  P([RUN(), [PO(40)]], {40: [ST(20, 10), RN(20), CY(21), ST(21, 5)], 21: [STOP(21)], 20: [RS(20), RN(20)]}),
  # synchronous timers
  P([[("sstart", 0, 30, 10), ("srunning", 0, 30)]], {30: [("srunning", 0, 30)]}),
  P([[("sstart", 0, 30, 20)], [SL(10), ("sstop", 0, 30), ("srunning", 0, 30)]]),
  P([[("scyc", 0, 30, 1), ("sstart", 0, 30, 10)], [SL(25), ("sstop", 0, 30)]]),
  P([[("scyc", 0, 30, 1), ("sstart", 0, 30, 10)]], {30: [("sstop", 0, 30)]}),
  P([[("sstart", 0, 30, 20)], [SL(10), ("srestart", 0, 30)]]),
  P([[("sstart", 0, 30, 20)], [SL(10), ("sstart", 0, 30, 20)]]),
  P([[("sstart", 0, 30, 20)], [("sstart", 0, 30, 5), ("sstop", 0, 30)], [("srestart", 0, 30)]]),
  P([[("scyc", 0, 30, 1), ("sstart", 0, 30, 10)], [SL(15), ("scyc", 0, 30, 0), ("srunning", 0, 30)]], {30: [SL(3)]}),
]

def gen(r):
    if r.random() < 0.15:
        def so():
            return r.choice([("sstart", 0, 30, r.choice([5, 10, 20])), ("sstop", 0, 30), ("srestart", 0, 30), ("srunning", 0, 30),
                             ("scyc", 0, 30, r.choice([0, 1])), SL(r.choice([3, 10]))])
        return P([[so() for _ in range(r.choice([1, 2, 3]))] for _ in range(r.choice([2, 3]))],
                 {30: [r.choice([("srunning", 0, 30), ("sstop", 0, 30), SL(4)])]} if r.random() < 0.4 else {})
    once = [50]
    T = [1, 2, 3, 4, 20]
    def own(fire=0):
        a = r.choice(T)
        if fire and r.random() < 0.4: a = fire
        x = r.random()
        if x < 0.35: return ST(a, r.choice([5, 10, 15, 20, 30]))
        if x < 0.5: return STOP(a)
        if x < 0.65: return RS(a)
        if x < 0.72: return RN(a)
        if x < 0.80: return CY(a, r.choice([0, 1]))
        if x < 0.85: return DEL(4)
        if x < 0.9:
            once[0] += 1
            return AF(once[0] - 1, r.choice([5, 10]))
        return SL(r.choice([5, 12, 30]))
    bodies = {}
    for k in (40, 41, 42): bodies[k] = [own() for _ in range(r.choice([1, 2, 3, 4]))]
    for k in T:
        if r.random() < 0.5: bodies[k] = [own(k) for _ in range(r.choice([1, 1, 2]))]
    def other():
        x = r.random()
        if x < 0.6: return PO(r.choice([40, 41, 42]))
        if x < 0.7: return SO(r.choice([1, 2, 3]), r.choice([5, 10, 20]))
        if x < 0.8: return STOPON(r.choice([1, 2, 3]))
        if x < 0.85:
            once[0] += 1
            return AO(once[0] - 1, r.choice([5, 10]))
        return SL(r.choice([5, 10, 20]))
    return P([RUN()] + [[other() for _ in range(r.choice([2, 3, 4]))] for _ in range(r.choice([1, 1, 2]))], bodies)

def check(ctx, prop):
    standard(ctx, "timer", "Timer", FIX, gen, nrand=(250, 1500), mclimit=(7, 8))
