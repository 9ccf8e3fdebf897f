"""C05: named processors and routing (specs/Router.tla)."""
from prog import P, standard

def MK(p, i=0): return ("create", p, i)
def ST(p): return ("stop", p)
def SUB(p, m=1): return ("sub", p, m)
def US(p, m=1): return ("unsub", p, m)
def F(i, how=0): return ("find", 0, i, how)
def RP(i, v, m=1): return ("rpost", 0, i, 100 * m + v)
def RA(v, m=1): return ("rall", 0, 0, 100 * m + v)
def RS(h, i, v, m=1): return ("rsend", h, i, 100 * m + v)
def RSA(h, v, m=1): return ("rsall", h, 0, 100 * m + v)
def PO(p, v, m=1): return ("post", p, 0, 100 * m + v)
def W(h): return ("wait", h)
def SV(p, ms=20): return ("serve", p, ms)
def RE(p): return ("reuse", p)

FIX = [
  P([[MK(1, 1), F(1), MK(2, 1), F(1), ST(1), F(1), MK(3, 1), F(1, 1)]]),
  P([[MK(1, 1), F(1)], [MK(2, 1), F(1)]]),
  P([[MK(1, 1), ST(1)], [MK(2, 1), F(1)]]),
  P([[MK(1, 1)], [MK(2, 2)], [SV(3)]], setup=[MK(3, 3), SUB(3, 0)]),
  P([[MK(1, 1), ST(1)], [SV(3)]], setup=[MK(3, 3), SUB(3, 0)]),
  P([[ST(1)], [ST(1), F(1)], [SV(3)]], setup=[MK(1, 1), MK(3, 3), SUB(3, 0)]),
  P([[ST(1), MK(4, 1)], [SV(3)]], setup=[MK(1, 1), MK(3, 3), SUB(3, 0), MK(2, 2), SUB(2, 0)]),
  P([[MK(1, 0), SUB(1), RP(0, 1), RA(2), F(0), PO(1, 3), SV(1, 5)]]),
  P([[RP(1, 1), RP(2, 2), RP(3, 3), RA(4), RA(5, 2), SV(1, 5), SV(2, 5)]], setup=[MK(1, 1), MK(2, 2), SUB(1), SUB(2), SUB(2, 2)]),
  P([[RP(1, 1), ST(1), RP(1, 2), RA(3)], [SV(1)]], setup=[MK(1, 1), SUB(1)]),
  P([[RS(1, 1, 1), W(1)], [SV(1)]], setup=[MK(1, 1), SUB(1)]),
  P([[RS(1, 1, 1), W(1)], [SV(1), ST(1)]], setup=[MK(1, 1), SUB(1)]),
  P([[RSA(1, 1), W(1)], [SV(1)], [SV(2)]], setup=[MK(1, 1), SUB(1), MK(2, 2), SUB(2)]),
  P([[RSA(1, 1), W(1)], [SV(1)], [ST(2)]], setup=[MK(1, 1), SUB(1), MK(2, 2), SUB(2)]),
  P([[RSA(1, 1), W(1), RS(2, 5, 1), W(2)]], setup=[MK(1, 1), MK(2, 2), SUB(2, 2)]),
  # from within handlers
  P([[RP(1, 1), SV(1)], [SV(2)]], {11: [RSA(1, 2, 2), RP(2, 3), F(1)]}, setup=[MK(1, 1), SUB(1), SUB(1, 2), MK(2, 2), SUB(2)]),
  P([[RP(1, 1), SV(1)]], {11: [RSA(1, 2, 2), W(1)], 21: [F(2), RP(1, 4, 2), RA(5)]}, setup=[MK(1, 1), SUB(1), SUB(1, 2)]),
  P([[RP(1, 1), SV(1), SV(2)]], {11: [ST(1), MK(2, 1), SUB(2), RS(1, 1, 7), F(1)]}, setup=[MK(1, 1), SUB(1)]),
  P([[RP(1, 1), SV(1)]], {11: [RS(1, 1, 2, 2), W(1), US(1, 2), RS(2, 1, 3, 2)]}, setup=[MK(1, 1), SUB(1), SUB(1, 2)]),
  P([[ST(1), MK(2, 1), RE(1), F(1), ST(1), F(1), ST(2), F(1)]], setup=[MK(1, 1)]),
  P([[ST(1), RE(1), F(1), SUB(1), RP(1, 1), PO(1, 2), SV(1, 5), RA(3)]], setup=[MK(1, 1)]),
  P([[US(1), RP(1, 2)], [RP(1, 1), RA(3)], [SV(1)]], setup=[MK(1, 1), SUB(1)]),
  P([[SUB(2), RP(2, 1)], [SV(2)], [RA(2)]], setup=[MK(1, 1), MK(2, 2)]),
  P([[RA(1), RA(2)], [RA(3)], [SV(1)]], setup=[MK(1, 1), SUB(1), MK(2, 2), SUB(2)]),
  P([[RA(1)], [ST(1)], [MK(3, 1)]], setup=[MK(1, 1), SUB(1), MK(2, 2), SUB(2)]),
]

def gen(r):
    n, h, v = [0], [0], [0]
    bodies, setup, threads = {}, [], []
    nth = r.choice([1, 2, 2, 3])
    ids = r.choice([2, 3])
    def val():
        v[0] += 1
        return v[0]
    owner = {}
    for _ in range(r.choice([1, 2, 3])):
        n[0] += 1
        p = n[0]
        setup.append(MK(p, r.choice([0, 1, 2, 3][: ids + 1])))
        owner[p] = r.randrange(nth)
        for m in (0, 1, 2):
            if r.random() < 0.55: setup.append(SUB(p, m))
    known = list(owner)
    def aop(t, depth, mineh, above=-1):
        x = r.random()
        i = r.randint(1, ids)
        m = r.choice([1, 1, 2])
        # sent to itself a message is handled in place: a handler must not end up in itself
        ms = [k for k in (1, 2) if k > above]
        if depth and not ms and x >= 0.66: return [F(i)]
        if x < 0.16 and n[0] < 6 and not depth:
            n[0] += 1
            owner[n[0]] = t
            known.append(n[0])
            return [MK(n[0], i)] + [SUB(n[0], k) for k in (0, 1, 2) if r.random() < 0.4]
        if x < 0.30: return [ST(r.choice(known))]
        if x < 0.38: return [F(i, r.choice([0, 1]))]
        if x < 0.54: return [RP(i, val(), m)]
        if x < 0.66: return [RA(val(), m)]
        if x < 0.86:
            h[0] += 1
            w = [W(h[0])] if r.random() < 0.3 and depth == 0 else []
            if not depth: mineh.append(h[0])
            m = r.choice(ms)
            return [r.choice([RS(h[0], i, val(), m), RSA(h[0], val(), m)])] + w
        own = [p for p in known if owner[p] == t]
        if x < 0.93 and own and not depth:
            p = r.choice(own)
            return [r.choice([SUB, US])(p, r.choice([0, 1, 2]))]
        if x < 0.96: return [RE(r.choice(known))]
        return [PO(r.choice(known), val(), m)]
    for t in range(nth):
        ops, mineh = [], []
        for _ in range(r.choice([2, 3, 4])):
            ops += aop(t, 0, mineh)
            if nth == 1 and r.random() < 0.4: ops.append(SV(r.choice(known), 5))
        ops += [W(x) for x in mineh if r.random() < 0.5]
        threads.append(ops)
    for p in known[:3]:
        for m in (0, 1, 2):
            if r.random() < 0.3:
                bodies[10 * m + p] = sum([aop(0, 1, [], m) for _ in range(r.choice([1, 2]))], [])
        if r.random() < 0.7: threads.append([SV(p, r.choice([5, 20]))])
        elif nth == 1: threads[0].append(SV(p, 5))
    return P(threads, bodies, setup=setup)

def check(ctx, prop):
    standard(ctx, "router", "Router", FIX, gen, nrand=(150, 800))
