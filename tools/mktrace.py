#!/usr/bin/env python3
"""Writes specs/<M>Trace.tla / .cfg for a specification built on Calls.tla."""
import os, sys
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")
T = r'''%(bar)s MODULE %(m)sTrace %(bar)s
(* Is every recorded execution (file $TRACES: one JSON object per line, "ev" its events)   *)
(* a behaviour of %(m)s?  Prints the traces that are not, with the furthest position        *)
(* reached.  Written by tools/mktrace.py.                                                   *)
EXTENDS %(m)s, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos

Ev == Traces[tr].ev[pos]
More == pos <= Len(Traces[tr].ev)

Visible ==
  /\ More /\ now = Ev.n /\ UNCHANGED now
  /\ CASE Ev.k = "call" -> DoCall(Ev.t, Ev.op, Ev.p, Ev.a, Ev.b)
       [] Ev.k = "ret" -> DoRet(Ev.t, Ev.op, Ev.p, Ev.a, Ev.b, Ev.r)
       [] Ev.k = "begin" -> DoBegin(Ev.t, Ev.op, Ev.p, Ev.a, Ev.b)
       [] Ev.k = "end" -> DoEnd(Ev.t, Ev.op, Ev.p, Ev.a, Ev.b, Ev.r)
       [] Ev.k = "exit" -> Idle(Ev.t) /\ UNCHANGED <<st, s>>
       [] Ev.k = "quiet" -> Quiet /\ UNCHANGED <<st, s>>
  /\ pos' = pos + 1 /\ tr' = tr

Internal == \E t \in Threads : Lin(t) /\ UNCHANGED <<tr, pos>>
Time == now < Ev.n /\ now' = Ev.n /\ UNCHANGED <<st, s, tr, pos>>

\* steps that commute with all others are taken first
LocalThreads == {t \in Threads : InCall(t) /\ Local(t)}
TNext ==
  /\ More
  /\ IF LocalThreads # {}
     THEN Lin(CHOOSE t \in LocalThreads : TRUE) /\ UNCHANGED <<tr, pos>>
     ELSE Visible \/ Internal \/ Time

\* what a thread does next in the trace, 0: nothing; a state in which it can only do something
\* else leads nowhere
NextOf(t) == LET nx == Traces[tr].nx[pos] IN IF t + 1 \in DOMAIN nx THEN nx[t + 1] ELSE 0
Promising(t) ==
  ~InCall(t) \/
  LET i == NextOf(t) f == Top(t) IN
    i = 0 \/ LET e == Traces[tr].ev[i] IN
      /\ f.ph = "done" => e.k = "ret" /\ Matches(f.res, e.r)
      /\ Must(t, e)
Prune == IOEnv.PRUNE = "0" \/ ~More \/ ((\A t \in Threads : Promising(t)) /\ QueuesFit)
TSpec == Init /\ tr \in 1..Len(Traces) /\ pos = 1 /\ [][TNext]_<<st, s, now, tr, pos>>

\* bookkeeping in TLC's register 2: the furthest position of each trace
ASSUME TLCSet(2, [i \in 1..Len(Traces) |-> 0])
Note == IF pos > TLCGet(2)[tr] THEN TLCSet(2, [TLCGet(2) EXCEPT ![tr] = pos]) ELSE TRUE
Rejected == {i \in 1..Len(Traces) : TLCGet(2)[i] <= Len(Traces[i].ev)}
Post == PrintT(<<"REJECTED", {<<i, TLCGet(2)[i]>> : i \in Rejected}>>)
=============================================================================
'''
QUEUES = {
"CS": r'''
\* what executor e is given must be what is taken from it later
Later(e) == SelectSeq(Traces[tr].dr[e], LAMBDA y : y[1] >= pos)
QueuesFit == \A e \in 1..2 : ~Traces[tr].pure[e] \/ LET l == Later(e) IN
  \A i \in 1..Len(s.exq[e]) : i > Len(l) \/ s.exq[e][i] = Tail(l[i])
\* the order of what is never taken does not matter
View == <<st, [s EXCEPT !.exq = [e \in 1..2 |->
            LET n == Len(Later(e)) m == Len(@[e]) IN
            IF m <= n \/ ~Traces[tr].pure[e] THEN @[e] ELSE SubSeq(@[e], 1, n) \o [i \in 1..m - n |-> 0]]], now, tr, pos>>
Must(t, e) ==
  LET f == Top(t) IN
  (f.ph = "run" /\ f.x[1][1] = "dl" /\ f.x[1][2] = 0) =>
    e.k = "begin" /\ <<e.op, e.p, e.a, e.b>> = Tail(Tail(f.x[1]))
'''}
QUEUES0 = {"IPC": r'''
QueuesFit == TRUE
Must(t, e) ==
  LET f == Top(t) IN
  (f.ph = "run" /\ f.x[1][1] = "dl") => e.k = "begin" /\ <<e.op, e.p, e.a, e.b>> = Tail(Tail(f.x[1]))
'''}
DEF = r'''
QueuesFit == TRUE
Must(t, e) == TRUE
'''
CFG = '''SPECIFICATION TSpec
CONSTRAINT Note
CONSTRAINT Prune
POSTCONDITION Post
CHECK_DEADLOCK FALSE
'''
for m in sys.argv[1:]:
    open(os.path.join(S, m + "Trace.tla"), "w").write(
        T.replace("%(queues)s\n", "").replace("NextOf(t) ==", QUEUES.get(m, QUEUES0.get(m, DEF)).strip() + "\nNextOf(t) ==") % dict(m=m, bar="-" * 29))
    open(os.path.join(S, m + "Trace.cfg"), "w").write(CFG + ("VIEW View\n" if m in QUEUES else ""))

# ---------------------------------------------------------------------- closed systems
MC = r'''%(bar)s MODULE MC%(m)s %(bar)s
(* Closed exploration of %(m)s: every behaviour of each program in $PROGS (JSON lines:     *)
(* setup: ops, threads: seq of ops, bodies: callback number -> ops; an op is               *)
(* <<name, p, a, b>>).  Written by tools/mktrace.py from %(m)s.mc.                          *)
EXTENDS %(m)s, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES pr, todo, g
Prog == Progs[pr]
BodyOps(k) == IF k \in 1..Len(Prog.bodies) THEN Prog.bodies[k] ELSE <<>>
Throws(k) == \E i \in 1..Len(Prog.throws) : Prog.throws[i] = k
HasOp(t) == todo[t] # <<>> /\ todo[t][Len(todo[t])] # <<>>
NextOp(t) == Head(todo[t][Len(todo[t])])
mvars == <<st, s, now, pr, todo, g>>

%(part1)s

MInit ==
  /\ Init /\ pr \in 1..Len(Progs) /\ g = Ghost0
  /\ todo = [t \in Threads |-> IF t = 0 THEN <<Progs[pr].setup>>
               ELSE IF t \in 1..Len(Progs[pr].threads) THEN <<Progs[pr].threads[t]>> ELSE <<>>]
MCall(t) ==
  /\ HasOp(t) /\ ~InCall(t)
  /\ t # 0 => ~HasOp(0) /\ Idle(0)
  /\ LET o == NextOp(t) IN
       DoCall(t, o[1], o[2], o[3], o[4]) /\ g' = GhostEv("call", t, o[1], o[2], o[3], o[4], "")
  /\ todo' = [todo EXCEPT ![t][Len(todo[t])] = Tail(@)]
  /\ UNCHANGED <<now, pr>>
MRet(t) ==
  /\ InCall(t) /\ Top(t).ph = "done"
  /\ LET f == Top(t) IN
       DoRet(t, f.op, f.p, f.a, f.b, f.res) /\ g' = GhostEv("ret", t, f.op, f.p, f.a, f.b, f.res)
  /\ UNCHANGED <<now, pr, todo>>
MBegin(t) ==
  \E e \in Begins(t) :
    /\ DoBegin(t, e[1], e[2], e[3], e[4]) /\ g' = GhostEv("begin", t, e[1], e[2], e[3], e[4], "")
    /\ todo' = [todo EXCEPT ![t] = Append(@, BodyOps(e[3]))]
    /\ UNCHANGED <<now, pr>>
MEnd(t) ==
  /\ InBody(t) /\ ~HasOp(t)
  /\ LET f == Top(t)
         r == IF Throws(f.a) THEN "throw" ELSE ""
     IN DoEnd(t, f.op, f.p, f.a, f.b, r) /\ g' = GhostEv("end", t, f.op, f.p, f.a, f.b, r)
  /\ todo' = [todo EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<now, pr>>
MLin(t) == Lin(t) /\ g' = GhostLin(t) /\ UNCHANGED <<pr, todo>>
MTick ==
  /\ \E d \in Deadlines : d > now /\ now' = d /\ \A e \in Deadlines : e > now => d <= e
  /\ UNCHANGED <<st, s, pr, todo, g>>
\* everything has come to rest; anything else without a successor is a deadlock
Rest == Quiet /\ \A t \in Threads : Idle(t) => ~HasOp(t)
MNext ==
  \/ \E t \in Threads : MCall(t) \/ MRet(t) \/ MBegin(t) \/ MEnd(t) \/ MLin(t)
  \/ MTick
  \/ Rest /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------------------------------------------ properties *)
%(part2)s
=============================================================================
'''
for m in sys.argv[1:]:
    f = os.path.join(S, m + ".mc")
    if not os.path.exists(f):
        continue
    cfg, parts = ["SPECIFICATION MSpec"], [[], []]
    i = 0
    for l in open(f).read().splitlines():
        if l.startswith("INVARIANT") or l.startswith("PROPERT"):
            cfg.append(l)
        elif l.startswith("=== properties"):
            i = 1
        else:
            parts[i].append(l)
    open(os.path.join(S, "MC" + m + ".tla"), "w").write(
        MC % dict(m=m, bar="-" * 29, part1="\n".join(parts[0]), part2="\n".join(parts[1])))
    open(os.path.join(S, "MC" + m + ".cfg"), "w").write("\n".join(cfg) + "\nCHECK_DEADLOCK TRUE\n")
