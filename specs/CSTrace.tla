----------------------------- MODULE CSTrace -----------------------------
(* Is every recorded execution (file $TRACES: one JSON object per line, "ev" its events)   *)
(* a behaviour of CS?  Prints the traces that are not, with the furthest position        *)
(* reached.  Written by tools/mktrace.py.                                                   *)
EXTENDS CS, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, pos

Ev == Traces[tr].ev[pos]
More == pos <= Len(Traces[tr].ev)

Visible ==
  /\ More /\ now = Ev.n /\ UNCHANGED now
  /\ CASE Ev.k = "call" -> DoCall(Ev.t, Ev.op, Ev.p, Ev.a, Ev.b)
       [] Ev.k = "ret" -> DoRet(Ev.t, Ev.op, Ev.p, Ev.a, Ev.b, Ev.r)
       [] Ev.k = "begin" -> DoBegin(Ev.t, Ev.op, Ev.p, Ev.a, Ev.b)
       [] Ev.k = "end" -> DoEnd(Ev.t, Ev.op, Ev.p, Ev.a, Ev.b, Ev.r)
       [] Ev.k = "exit" -> Idle(Ev.t) /\ UNCHANGED <<st, s>>
       [] Ev.k = "quiet" -> Quiet /\ UNCHANGED <<st, s>>
  /\ pos' = pos + 1 /\ tr' = tr

Internal == \E t \in Threads : Lin(t) /\ UNCHANGED <<tr, pos>>
Time == now < Ev.n /\ now' = Ev.n /\ UNCHANGED <<st, s, tr, pos>>

\* steps that commute with all others are taken first
LocalThreads == {t \in Threads : InCall(t) /\ Local(t)}
TNext ==
  /\ More
  /\ IF LocalThreads # {}
     THEN Lin(CHOOSE t \in LocalThreads : TRUE) /\ UNCHANGED <<tr, pos>>
     ELSE Visible \/ Internal \/ Time

\* what a thread does next in the trace, 0: nothing; a state in which it can only do something
\* else leads nowhere
\* what executor e is given must be what is taken from it later
Later(e) == SelectSeq(Traces[tr].dr[e], LAMBDA y : y[1] >= pos)
QueuesFit == \A e \in 1..2 : ~Traces[tr].pure[e] \/ LET l == Later(e) IN
  \A i \in 1..Len(s.exq[e]) : i > Len(l) \/ s.exq[e][i] = Tail(l[i])
\* the order of what is never taken does not matter
View == <<st, [s EXCEPT !.exq = [e \in 1..2 |->
            LET n == Len(Later(e)) m == Len(@[e]) IN
            IF m <= n \/ ~Traces[tr].pure[e] THEN @[e] ELSE SubSeq(@[e], 1, n) \o [i \in 1..m - n |-> 0]]], now, tr, pos>>
Must(t, e) ==
  LET f == Top(t) IN
  (f.ph = "run" /\ f.x[1][1] = "dl" /\ f.x[1][2] = 0) =>
    e.k = "begin" /\ <<e.op, e.p, e.a, e.b>> = Tail(Tail(f.x[1]))
NextOf(t) == LET nx == Traces[tr].nx[pos] IN IF t + 1 \in DOMAIN nx THEN nx[t + 1] ELSE 0
Promising(t) ==
  ~InCall(t) \/
  LET i == NextOf(t) f == Top(t) IN
    i = 0 \/ LET e == Traces[tr].ev[i] IN
      /\ f.ph = "done" => e.k = "ret" /\ Matches(f.res, e.r)
      /\ Must(t, e)
Prune == IOEnv.PRUNE = "0" \/ ~More \/ ((\A t \in Threads : Promising(t)) /\ QueuesFit)
TSpec == Init /\ tr \in 1..Len(Traces) /\ pos = 1 /\ [][TNext]_<<st, s, now, tr, pos>>

\* bookkeeping in TLC's register 2: the furthest position of each trace
ASSUME TLCSet(2, [i \in 1..Len(Traces) |-> 0])
Note == IF pos > TLCGet(2)[tr] THEN TLCSet(2, [TLCGet(2) EXCEPT ![tr] = pos]) ELSE TRUE
Rejected == {i \in 1..Len(Traces) : TLCGet(2)[i] <= Len(Traces[i].ev)}
Post == PrintT(<<"REJECTED", {<<i, TLCGet(2)[i]>> : i \in Rejected}>>)
=============================================================================
