----------------------------- MODULE ProcTrace -----------------------------
(* Is every recorded execution (file named by $TRACES, one JSON object per line, field   *)
(* "ev" the events) a behaviour of Proc?  Accepted traces are collected; the             *)
(* postcondition prints the others with the furthest position reached.                   *)
EXTENDS Proc, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos
tvars == <<vars, tr, pos>>

TInit == Init /\ tr \in 1..Len(Traces) /\ pos = 1

Ev == Traces[tr].ev[pos]
More == pos <= Len(Traces[tr].ev)

Visible ==
  /\ More
  /\ now = Ev.n /\ now' = now
  /\ CASE Ev.k = "call" -> DoCall(Ev.t, Ev.op, Ev.p, Ev.a, Ev.b)
       [] Ev.k = "ret" -> DoRet(Ev.t, Ev.op, Ev.p, Ev.a, Ev.b, Ev.r)
       [] Ev.k = "begin" -> DoBegin(Ev.t, Ev.op, Ev.p, Ev.a, Ev.b)
       [] Ev.k = "end" -> DoEnd(Ev.t, Ev.op, Ev.p, Ev.a, Ev.b, Ev.r = "throw")
       [] Ev.k = "exit" -> Idle(Ev.t) /\ UNCHANGED <<closed, dead, q, st, inst, hs, hd, hub, cs, asy, sg>>
       [] Ev.k = "quiet" -> UNCHANGED <<closed, dead, q, st, inst, hs, hd, hub, cs, asy, sg>> /\ Quiet'
  /\ pos' = pos + 1 /\ tr' = tr

Internal == More /\ \E t \in Threads : Lin(t) /\ UNCHANGED <<tr, pos>>

\* time has passed before the next event; what is due may take effect first
Time == More /\ now < Ev.n /\ now' = Ev.n /\ UNCHANGED <<closed, dead, q, st, inst, hs, hd, hub, cs, asy, sg, tr, pos>>

\* steps that touch nothing but the thread's own frame commute with all others: first
Local(t) ==
  /\ InCall(t)
  /\ LET f == Top(t) IN
       \/ f.op \in {"run", "runfor", "runonce"} /\ f.ph \in {"called", "leave"}
       \/ f.ph = "fin" /\ f.item.h = 0
       \/ f.op = "me" /\ f.ph = "called"
       \/ f.op \in {"texec", "texeca", "tstop"} /\ f.ph = "called" /\ inst[t] = 0
LocalThreads == {t \in Threads : Local(t)}
TNext ==
  IF More /\ LocalThreads # {}
  THEN Lin(CHOOSE t \in LocalThreads : TRUE) /\ UNCHANGED <<tr, pos>>
  ELSE Visible \/ Internal \/ Time

\* bookkeeping: register 1 = accepted traces, 2 = furthest position per trace
Note ==
  /\ IF pos > TLCGet(2)[tr] THEN TLCSet(2, [TLCGet(2) EXCEPT ![tr] = pos]) ELSE TRUE
TraceInit == TInit
ASSUME TLCSet(2, [i \in 1..Len(Traces) |-> 0])
Rejected == {i \in 1..Len(Traces) : TLCGet(2)[i] <= Len(Traces[i].ev)}
Post == PrintT(<<"REJECTED", {<<i, TLCGet(2)[i]>> : i \in Rejected}>>)
TSpec == TraceInit /\ [][TNext]_tvars
=============================================================================
