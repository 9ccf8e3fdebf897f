----------------------------- MODULE MCRouter -----------------------------
(* Closed exploration of Router: every behaviour of each program in $PROGS (JSON lines:     *)
(* setup: ops, threads: seq of ops, bodies: callback number -> ops; an op is               *)
(* <<name, p, a, b>>).  Written by tools/mktrace.py from Router.mc.                          *)
EXTENDS Router, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES pr, todo, g
Prog == Progs[pr]
BodyOps(k) == IF k \in 1..Len(Prog.bodies) THEN Prog.bodies[k] ELSE <<>>
Throws(k) == \E i \in 1..Len(Prog.throws) : Prog.throws[i] = k
HasOp(t) == todo[t] # <<>> /\ todo[t][Len(todo[t])] # <<>>
NextOp(t) == Head(todo[t][Len(todo[t])])
mvars == <<st, s, now, pr, todo, g>>

\* ghost: notices queued for each processor: <<status, slot>> in order; who was subscribed and
\* live throughout
Ghost0 == [in |-> [p \in Slots |-> <<>>], made |-> {}, reused |-> {}]
GhostEv(k, t, op, p, a, b, r) ==
  IF k = "ret" /\ op = "create" /\ r = "true" THEN [g EXCEPT !.made = @ \cup {p}]
  ELSE IF k = "call" /\ op = "reuse" THEN [g EXCEPT !.reused = @ \cup {p}] ELSE g
GhostLin(t) ==
  LET f == Top(t) IN
  IF Sending(f) /\ f.x.cur # 0 /\ f.op \in {"create", "stop"} /\ ~s.closed[f.x.cur]
  THEN [g EXCEPT !.in[f.x.cur] = Append(@, <<f.op, f.p>>)] ELSE g
Begins(t) ==
  IF ~InCall(t) THEN {} ELSE
  LET f == Top(t)
      p == IF f.op = "serve" THEN f.p ELSE f.x.cur
  IN IF (f.op = "serve" /\ f.ph = "due") \/ f.ph = "inline" THEN {<<"h", p, 10 * f.x.m + p, f.x.v>>} ELSE {}
Deadlines == {Top(t).n + Top(t).a : t \in {u \in Threads : InCall(u) /\ Top(u).op = "serve"}}

MInit ==
  /\ Init /\ pr \in 1..Len(Progs) /\ g = Ghost0
  /\ todo = [t \in Threads |-> IF t = 0 THEN <<Progs[pr].setup>>
               ELSE IF t \in 1..Len(Progs[pr].threads) THEN <<Progs[pr].threads[t]>> ELSE <<>>]
MCall(t) ==
  /\ HasOp(t) /\ ~InCall(t)
  /\ t # 0 => ~HasOp(0) /\ Idle(0)
  /\ LET o == NextOp(t) IN
       DoCall(t, o[1], o[2], o[3], o[4]) /\ g' = GhostEv("call", t, o[1], o[2], o[3], o[4], "")
  /\ todo' = [todo EXCEPT ![t][Len(todo[t])] = Tail(@)]
  /\ UNCHANGED <<now, pr>>
MRet(t) ==
  /\ InCall(t) /\ Top(t).ph = "done"
  /\ LET f == Top(t) IN
       DoRet(t, f.op, f.p, f.a, f.b, f.res) /\ g' = GhostEv("ret", t, f.op, f.p, f.a, f.b, f.res)
  /\ UNCHANGED <<now, pr, todo>>
MBegin(t) ==
  \E e \in Begins(t) :
    /\ DoBegin(t, e[1], e[2], e[3], e[4]) /\ g' = GhostEv("begin", t, e[1], e[2], e[3], e[4], "")
    /\ todo' = [todo EXCEPT ![t] = Append(@, BodyOps(e[3]))]
    /\ UNCHANGED <<now, pr>>
MEnd(t) ==
  /\ InBody(t) /\ ~HasOp(t)
  /\ LET f == Top(t)
         r == IF Throws(f.a) THEN "throw" ELSE ""
     IN DoEnd(t, f.op, f.p, f.a, f.b, r) /\ g' = GhostEv("end", t, f.op, f.p, f.a, f.b, r)
  /\ todo' = [todo EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<now, pr>>
MLin(t) == Lin(t) /\ g' = GhostLin(t) /\ UNCHANGED <<pr, todo>>
MTick ==
  /\ \E d \in Deadlines : d > now /\ now' = d /\ \A e \in Deadlines : e > now => d <= e
  /\ UNCHANGED <<st, s, pr, todo, g>>
\* everything has come to rest; anything else without a successor is a deadlock
Rest == Quiet /\ \A t \in Threads : Idle(t) => ~HasOp(t)
MNext ==
  \/ \E t \in Threads : MCall(t) \/ MRet(t) \/ MBegin(t) \/ MEnd(t) \/ MLin(t)
  \/ MTick
  \/ Rest /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------------------------------------------ properties *)
\* at most one processor that was created and never stopped has a given id
Stopping(p) == \E t \in Threads : \E i \in DOMAIN st[t] : st[t][i].op = "stop" /\ st[t][i].p = p
OneLive == \A p, q \in g.made \ g.reused :
   p # q /\ s.id[p] = s.id[q] /\ s.id[p] > 0 => s.closed[p] \/ s.closed[q]
\* live processors are found, and stopped ones are not once stop is over
TableLive == /\ \A p \in g.made \ g.reused : s.id[p] > 0 /\ ~s.closed[p] => p \in s.tab
             /\ \A p \in s.tab : s.closed[p] => Stopping(p)
             /\ \A p, q \in s.tab : s.id[p] = s.id[q] => p = q
Idx(p, e) == {i \in DOMAIN g.in[p] : g.in[p][i] = e}
\* nobody is told twice of the same coming or going, and of the coming first
NoticesOnce == \A p, q \in Slots : q \notin g.reused =>
   Cardinality(Idx(p, <<"create", q>>)) <= 1 /\ Cardinality(Idx(p, <<"stop", q>>)) <= 1
NoticesOrder == \A p, q \in Slots :
   \A i \in Idx(p, <<"create", q>>), j \in Idx(p, <<"stop", q>>) : i < j
\* at rest nobody holds the table; waiters wait for messages that are still queued
RestOK == Rest => s.lk = Nobody
=============================================================================
