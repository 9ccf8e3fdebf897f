----------------------------- MODULE MCQueue -----------------------------
(* Closed exploration of Queue: every behaviour of each program in $PROGS (JSON lines:     *)
(* setup: ops, threads: seq of ops, bodies: callback number -> ops; an op is               *)
(* <<name, p, a, b>>).  Written by tools/mktrace.py from Queue.mc.                          *)
EXTENDS Queue, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES pr, todo, g
Prog == Progs[pr]
BodyOps(k) == IF k \in 1..Len(Prog.bodies) THEN Prog.bodies[k] ELSE <<>>
Throws(k) == \E i \in 1..Len(Prog.throws) : Prog.throws[i] = k
HasOp(t) == todo[t] # <<>> /\ todo[t][Len(todo[t])] # <<>>
NextOp(t) == Head(todo[t][Len(todo[t])])
mvars == <<st, s, now, pr, todo, g>>

\* ghost: what was pushed into, taken from and cleared out of each queue, in order
Ghost0 == [in |-> [p \in Objs |-> <<>>], out |-> [p \in Objs |-> <<>>], cleared |-> [p \in Objs |-> <<>>]]
GhostEv(k, t, op, p, a, b, r) == g
GhostLin(t) ==
  LET f == Top(t)  p == f.p IN
  IF f.op \in {"push", "pushm", "pushseq"} /\ s' # s
  THEN [g EXCEPT !.in[p] = @ \o SubSeq(s'.q[p], Len(s.q[p]) + 1, Len(s'.q[p]))]
  ELSE IF f.op \in Pops /\ s' # s THEN [g EXCEPT !.out[p] = Append(@, Next(p))]
  ELSE IF f.op \in {"clear", "clearcb"} THEN [g EXCEPT !.cleared[p] = @ \o s.q[p]]
  ELSE g
Begins(t) == {}
Deadlines == {Top(t).n + Top(t).a : t \in {u \in Threads : InCall(u) /\ Timed(Top(u))}}

MInit ==
  /\ Init /\ pr \in 1..Len(Progs) /\ g = Ghost0
  /\ todo = [t \in Threads |-> IF t = 0 THEN <<Progs[pr].setup>>
               ELSE IF t \in 1..Len(Progs[pr].threads) THEN <<Progs[pr].threads[t]>> ELSE <<>>]
MCall(t) ==
  /\ HasOp(t) /\ ~InCall(t)
  /\ t # 0 => ~HasOp(0) /\ Idle(0)
  /\ LET o == NextOp(t) IN
       DoCall(t, o[1], o[2], o[3], o[4]) /\ g' = GhostEv("call", t, o[1], o[2], o[3], o[4], "")
  /\ todo' = [todo EXCEPT ![t][Len(todo[t])] = Tail(@)]
  /\ UNCHANGED <<now, pr>>
MRet(t) ==
  /\ InCall(t) /\ Top(t).ph = "done"
  /\ LET f == Top(t) IN
       DoRet(t, f.op, f.p, f.a, f.b, f.res) /\ g' = GhostEv("ret", t, f.op, f.p, f.a, f.b, f.res)
  /\ UNCHANGED <<now, pr, todo>>
MBegin(t) ==
  \E e \in Begins(t) :
    /\ DoBegin(t, e[1], e[2], e[3], e[4]) /\ g' = GhostEv("begin", t, e[1], e[2], e[3], e[4], "")
    /\ todo' = [todo EXCEPT ![t] = Append(@, BodyOps(e[3]))]
    /\ UNCHANGED <<now, pr>>
MEnd(t) ==
  /\ InBody(t) /\ ~HasOp(t)
  /\ LET f == Top(t)
         r == IF Throws(f.a) THEN "throw" ELSE ""
     IN DoEnd(t, f.op, f.p, f.a, f.b, r) /\ g' = GhostEv("end", t, f.op, f.p, f.a, f.b, r)
  /\ todo' = [todo EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<now, pr>>
MLin(t) == Lin(t) /\ g' = GhostLin(t) /\ UNCHANGED <<pr, todo>>
MTick ==
  /\ \E d \in Deadlines : d > now /\ now' = d /\ \A e \in Deadlines : e > now => d <= e
  /\ UNCHANGED <<st, s, pr, todo, g>>
\* everything has come to rest; anything else without a successor is a deadlock
Rest == Quiet /\ \A t \in Threads : Idle(t) => ~HasOp(t)
MNext ==
  \/ \E t \in Threads : MCall(t) \/ MRet(t) \/ MBegin(t) \/ MEnd(t) \/ MLin(t)
  \/ MTick
  \/ Rest /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------------------------------------------ properties *)
Count(q, v) == Cardinality({i \in DOMAIN q : q[i] = v})
\* every item pushed is in the queue, or taken once, or cleared
Conserved == \A p \in Objs : \A v \in Range(g.in[p]) :
   Count(g.in[p], v) = Count(s.q[p], v) + Count(g.out[p], v) + Count(g.cleared[p], v)
\* what is taken (or cleared or left) is in push order
Pos(q, v) == CHOOSE i \in DOMAIN q : q[i] = v
FifoOrder ==
  /\ \A i, j \in DOMAIN g.out[1] : i < j => Pos(g.in[1], g.out[1][i]) < Pos(g.in[1], g.out[1][j])
  \* priority: a taken item was at least as great as those left behind when it was taken
  /\ TRUE
\* at rest nobody waits for a queue that has something or is closed
RestOK == Rest => \A t \in Threads : ~Idle(t) => s.q[Top(t).p] = <<>> /\ ~s.closed[Top(t).p]
NothingFromClosed == [][\A p \in Objs : s.closed[p] /\ s'.closed[p] => g.out[p] = g'.out[p] /\ g.in[p] = g'.in[p]]_mvars
=============================================================================
