----------------------------- MODULE MCPool -----------------------------
(* Closed exploration of Pool: every behaviour of each program in $PROGS (JSON lines:     *)
(* setup: ops, threads: seq of ops, bodies: callback number -> ops; an op is               *)
(* <<name, p, a, b>>).  Written by tools/mktrace.py from Pool.mc.                          *)
EXTENDS Pool, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES pr, todo, g
Prog == Progs[pr]
BodyOps(k) == IF k \in 1..Len(Prog.bodies) THEN Prog.bodies[k] ELSE <<>>
Throws(k) == \E i \in 1..Len(Prog.throws) : Prog.throws[i] = k
HasOp(t) == todo[t] # <<>> /\ todo[t][Len(todo[t])] # <<>>
NextOp(t) == Head(todo[t][Len(todo[t])])
mvars == <<st, s, now, pr, todo, g>>

Ghost0 == [run |-> <<>>, done |-> <<>>]
GhostEv(k, t, op, p, a, b, r) ==
  IF k # "begin" THEN g
  ELSE IF op = "run" THEN [g EXCEPT !.run = Put(@, a, Get(@, a, 0) + 1)]
  ELSE IF op = "done" THEN [g EXCEPT !.done = Put(@, p, Get(@, p, 0) + 1)]
  ELSE g
GhostLin(t) == g
Begins(t) ==
  IF InCall(t) THEN (IF Top(t).ph # "run" THEN {} ELSE
    LET x == Top(t).x[1] IN
    IF x[1] = "stops" THEN {<<"stop", a, 200 + a, 0>> : a \in x[2]}
    ELSE IF x[1] = "dones" THEN {<<"done", a, 300 + a, 0>> : a \in x[2]} ELSE {})
  ELSE IF Idle(t) /\ t \in 8..7 + s.max
       THEN {e \in {<<"run", 0, a, 0>> : a \in At("reg")} \cup {<<"done", a, 300 + a, 0>> : a \in At("off")} :
               OnWorker(t, e[1], e[2], e[3]) /\ (\/ \E b \in DOMAIN s.by : s.by[b] = t
                                               \/ \A u \in 8..t - 1 : Idle(u) => \E b \in DOMAIN s.by : s.by[b] = u)}
  ELSE {}
Deadlines == {}

MInit ==
  /\ Init /\ pr \in 1..Len(Progs) /\ g = Ghost0
  /\ todo = [t \in Threads |-> IF t = 0 THEN <<Progs[pr].setup>>
               ELSE IF t \in 1..Len(Progs[pr].threads) THEN <<Progs[pr].threads[t]>> ELSE <<>>]
MCall(t) ==
  /\ HasOp(t) /\ ~InCall(t)
  /\ t # 0 => ~HasOp(0) /\ Idle(0)
  /\ LET o == NextOp(t) IN
       DoCall(t, o[1], o[2], o[3], o[4]) /\ g' = GhostEv("call", t, o[1], o[2], o[3], o[4], "")
  /\ todo' = [todo EXCEPT ![t][Len(todo[t])] = Tail(@)]
  /\ UNCHANGED <<now, pr>>
MRet(t) ==
  /\ InCall(t) /\ Top(t).ph = "done"
  /\ LET f == Top(t) IN
       DoRet(t, f.op, f.p, f.a, f.b, f.res) /\ g' = GhostEv("ret", t, f.op, f.p, f.a, f.b, f.res)
  /\ UNCHANGED <<now, pr, todo>>
MBegin(t) ==
  \E e \in Begins(t) :
    /\ DoBegin(t, e[1], e[2], e[3], e[4]) /\ g' = GhostEv("begin", t, e[1], e[2], e[3], e[4], "")
    /\ todo' = [todo EXCEPT ![t] = Append(@, BodyOps(e[3]))]
    /\ UNCHANGED <<now, pr>>
MEnd(t) ==
  /\ InBody(t) /\ ~HasOp(t)
  /\ LET f == Top(t)
         r == IF Throws(f.a) THEN "throw" ELSE ""
     IN DoEnd(t, f.op, f.p, f.a, f.b, r) /\ g' = GhostEv("end", t, f.op, f.p, f.a, f.b, r)
  /\ todo' = [todo EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<now, pr>>
MLin(t) == Lin(t) /\ g' = GhostLin(t) /\ UNCHANGED <<pr, todo>>
MTick ==
  /\ \E d \in Deadlines : d > now /\ now' = d /\ \A e \in Deadlines : e > now => d <= e
  /\ UNCHANGED <<st, s, pr, todo, g>>
\* everything has come to rest; anything else without a successor is a deadlock
Rest == Quiet /\ \A t \in Threads : Idle(t) => ~HasOp(t)
MNext ==
  \/ \E t \in Threads : MCall(t) \/ MRet(t) \/ MBegin(t) \/ MEnd(t) \/ MLin(t)
  \/ MTick
  \/ Rest /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------------------------------------------ properties *)
\* every task is run at most once, disposed of exactly once (if the pool is to do that), never run after
Settled == \A a \in DOMAIN s.ts :
  /\ Get(g.run, a, 0) <= 1 /\ Get(g.done, a, 0) <= 1
  /\ s.ts[a] = "refused" => Get(g.run, a, 0) = 0 /\ Get(g.done, a, 0) = 0
  /\ Get(g.run, a, 0) = 0 => s.ts[a] \notin {"run", "ran"}
  /\ (~s.closed /\ Rest) => Get(g.run, a, 0) = 1 \/ Cardinality(Busy) >= s.n
\* nothing is left when shutting down has returned
Ended == s.shut = 2 => /\ s.q = <<>> /\ Busy = {}
                       /\ \A a \in DOMAIN s.ts : s.ts[a] \in {"gone", "refused"}
                       /\ \A a \in DOMAIN s.ts : s.ts[a] = "gone" /\ Owned(a) => Get(g.done, a, 0) = 1
=============================================================================
