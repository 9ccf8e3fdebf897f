----------------------------- MODULE MCTimer -----------------------------
(* Closed exploration of Timer: every behaviour of each program in $PROGS (JSON lines:     *)
(* setup: ops, threads: seq of ops, bodies: callback number -> ops; an op is               *)
(* <<name, p, a, b>>).  Written by tools/mktrace.py from Timer.mc.                          *)
EXTENDS Timer, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES pr, todo, g
Prog == Progs[pr]
BodyOps(k) == IF k \in 1..Len(Prog.bodies) THEN Prog.bodies[k] ELSE <<>>
Throws(k) == \E i \in 1..Len(Prog.throws) : Prog.throws[i] = k
HasOp(t) == todo[t] # <<>> /\ todo[t][Len(todo[t])] # <<>>
NextOp(t) == Head(todo[t][Len(todo[t])])
mvars == <<st, s, now, pr, todo, g>>

\* when each timer was started, how often it has fired since
Ghost0 == [at |-> <<>>, n |-> <<>>, o |-> <<>>, early |-> FALSE, gone |-> FALSE]
GhostEv(k, t, op, p, a, b, r) ==
  IF k = "begin" /\ op = "fire"
  THEN IF a \notin DOMAIN s.tm THEN g ELSE [g EXCEPT !.n = Put(@, a, Get(@, a, 0) + 1), !.early = @ \/ now < Get(g.at, a, 0) + (Get(g.n, a, 0) + 1) * s.tm[a].dur,
                 !.o = IF s.tm[a].cyc THEN @ ELSE Put(@, a, 1),
                 !.gone = @ \/ Get(g.o, a, 0) = 1]
  ELSE g
Fresh(gg, a) == [gg EXCEPT !.at = Put(@, a, now), !.n = Put(@, a, 0), !.o = Put(@, a, 0)]
GhostLin(t) ==
  LET f == Top(t) IN
  IF f.op \in {"start", "restart"} /\ f.ph = "called" THEN Fresh(g, f.a)
  ELSE IF f.op = "run" /\ f.ph = "called" /\ f.x = <<>> /\ s.q[f.p] # <<>> /\ s.q[f.p][1][1] = "start"
  THEN Fresh(g, s.q[f.p][1][2])
  ELSE g
Begins(t) ==
  IF ~InCall(t) THEN {} ELSE
  LET f == Top(t) IN
  IF f.op = "run" /\ Len(f.x) = 1 THEN {<<"task", f.p, f.x[1], 0>>}
  ELSE IF f.op = "run" /\ f.x = <<>> /\ ~s.over[f.p] THEN {<<"fire", f.p, a % 1000, 0>> : a \in Due(f.p)}
  ELSE IF f.op = "sstart" /\ f.ph = "run" THEN {<<"sfire", 0, f.a, 0>>} ELSE {}
Deadlines ==
  {d \in {s.tm[a].dl : a \in {x \in DOMAIN s.tm : s.tm[x].on}} \cup
         {Top(t).n + Top(t).b : t \in {u \in Threads : InCall(u) /\ Top(u).op = "sleep" /\ Top(u).ph = "called"}} \cup
         {Top(t).x[2] : t \in {u \in Threads : InCall(u) /\ Top(u).op = "sstart" /\ Top(u).ph = "run"}} : d <= 40}

MInit ==
  /\ Init /\ pr \in 1..Len(Progs) /\ g = Ghost0
  /\ todo = [t \in Threads |-> IF t = 0 THEN <<Progs[pr].setup>>
               ELSE IF t \in 1..Len(Progs[pr].threads) THEN <<Progs[pr].threads[t]>> ELSE <<>>]
MCall(t) ==
  /\ HasOp(t) /\ ~InCall(t)
  /\ t # 0 => ~HasOp(0) /\ Idle(0)
  /\ LET o == NextOp(t) IN
       DoCall(t, o[1], o[2], o[3], o[4]) /\ g' = GhostEv("call", t, o[1], o[2], o[3], o[4], "")
  /\ todo' = [todo EXCEPT ![t][Len(todo[t])] = Tail(@)]
  /\ UNCHANGED <<now, pr>>
MRet(t) ==
  /\ InCall(t) /\ Top(t).ph = "done"
  /\ LET f == Top(t) IN
       DoRet(t, f.op, f.p, f.a, f.b, f.res) /\ g' = GhostEv("ret", t, f.op, f.p, f.a, f.b, f.res)
  /\ UNCHANGED <<now, pr, todo>>
MBegin(t) ==
  \E e \in Begins(t) :
    /\ DoBegin(t, e[1], e[2], e[3], e[4]) /\ g' = GhostEv("begin", t, e[1], e[2], e[3], e[4], "")
    /\ todo' = [todo EXCEPT ![t] = Append(@, BodyOps(e[3]))]
    /\ UNCHANGED <<now, pr>>
MEnd(t) ==
  /\ InBody(t) /\ ~HasOp(t)
  /\ LET f == Top(t)
         r == IF Throws(f.a) THEN "throw" ELSE ""
     IN DoEnd(t, f.op, f.p, f.a, f.b, r) /\ g' = GhostEv("end", t, f.op, f.p, f.a, f.b, r)
  /\ todo' = [todo EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<now, pr>>
MLin(t) == Lin(t) /\ g' = GhostLin(t) /\ UNCHANGED <<pr, todo>>
MTick ==
  /\ \E d \in Deadlines : d > now /\ now' = d /\ \A e \in Deadlines : e > now => d <= e
  /\ UNCHANGED <<st, s, pr, todo, g>>
\* everything has come to rest; anything else without a successor is a deadlock
Rest == Quiet /\ \A t \in Threads : Idle(t) => ~HasOp(t)
MNext ==
  \/ \E t \in Threads : MCall(t) \/ MRet(t) \/ MBegin(t) \/ MEnd(t) \/ MLin(t)
  \/ MTick
  \/ Rest /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------------------------------------------ properties *)
\* no timer fires before its interval has passed, a one-shot one only once
NotEarly == ~g.early /\ ~g.gone
\* at rest every timer that runs is still to fire, and others are not to
Truth == Rest => \A t \in Threads : InCall(t) /\ Top(t).op = "run" => \A a \in DOMAIN s.tm : s.tm[a].on /\ s.tm[a].p = Top(t).p /\ ~s.closed[Top(t).p] => s.tm[a].dl > now
=============================================================================
