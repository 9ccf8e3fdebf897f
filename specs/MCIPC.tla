----------------------------- MODULE MCIPC -----------------------------
(* Closed exploration of IPC: every behaviour of each program in $PROGS (JSON lines:     *)
(* setup: ops, threads: seq of ops, bodies: callback number -> ops; an op is               *)
(* <<name, p, a, b>>).  Written by tools/mktrace.py from IPC.mc.                          *)
EXTENDS IPC, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES pr, todo, g
Prog == Progs[pr]
BodyOps(k) == IF k \in 1..Len(Prog.bodies) THEN Prog.bodies[k] ELSE <<>>
Throws(k) == \E i \in 1..Len(Prog.throws) : Prog.throws[i] = k
HasOp(t) == todo[t] # <<>> /\ todo[t][Len(todo[t])] # <<>>
NextOp(t) == Head(todo[t][Len(todo[t])])
mvars == <<st, s, now, pr, todo, g>>

\* ghost: ans: final values given to a request by the server, fin: final values taken by a client
Ghost0 == [ans |-> <<>>, fin |-> <<>>, told |-> <<>>]
GhostEv(k, t, op, p, a, b, r) ==
  IF k = "begin" /\ op = "avail" THEN [g EXCEPT !.told = Put(@, p, b)] ELSE g
GhostLin(t) ==
  LET f == Top(t) IN
  IF f.ph # "run" THEN g ELSE LET k == f.x[1] IN
  IF k[1] = "answer" /\ k[3] = 1 /\ k[2] \in s.live THEN [g EXCEPT !.ans = Put(@, k[2], Get(@, k[2], {}) \cup {k[4]})]
  ELSE IF k[1] = "receive" /\ k[3] = 1 /\ k[2] \in s.pend THEN [g EXCEPT !.fin = Put(@, k[2], Append(Get(@, k[2], <<>>), k[4]))]
  ELSE g
Begins(t) ==
  IF ~InCall(t) \/ Top(t).ph # "run" THEN {} ELSE
  LET x == Top(t).x[1] IN IF x[1] = "dl" THEN {<<x[3], x[4], x[5], x[6]>>} ELSE {}
Deadlines ==
  {Top(t).n + (IF Top(t).op = "sleep" THEN Top(t).a ELSE Top(t).b % 1000) :
     t \in {u \in Threads : InCall(u) /\ \/ Top(u).op = "sleep"
                                         \/ Top(u).op = "sync" /\ Top(u).b % 1000 > 0}}

MInit ==
  /\ Init /\ pr \in 1..Len(Progs) /\ g = Ghost0
  /\ todo = [t \in Threads |-> IF t = 0 THEN <<Progs[pr].setup>>
               ELSE IF t \in 1..Len(Progs[pr].threads) THEN <<Progs[pr].threads[t]>> ELSE <<>>]
MCall(t) ==
  /\ HasOp(t) /\ ~InCall(t)
  /\ t # 0 => ~HasOp(0) /\ Idle(0)
  /\ LET o == NextOp(t) IN
       DoCall(t, o[1], o[2], o[3], o[4]) /\ g' = GhostEv("call", t, o[1], o[2], o[3], o[4], "")
  /\ todo' = [todo EXCEPT ![t][Len(todo[t])] = Tail(@)]
  /\ UNCHANGED <<now, pr>>
MRet(t) ==
  /\ InCall(t) /\ Top(t).ph = "done"
  /\ LET f == Top(t) IN
       DoRet(t, f.op, f.p, f.a, f.b, f.res) /\ g' = GhostEv("ret", t, f.op, f.p, f.a, f.b, f.res)
  /\ UNCHANGED <<now, pr, todo>>
MBegin(t) ==
  \E e \in Begins(t) :
    /\ DoBegin(t, e[1], e[2], e[3], e[4]) /\ g' = GhostEv("begin", t, e[1], e[2], e[3], e[4], "")
    /\ todo' = [todo EXCEPT ![t] = Append(@, BodyOps(e[3]))]
    /\ UNCHANGED <<now, pr>>
MEnd(t) ==
  /\ InBody(t) /\ ~HasOp(t)
  /\ LET f == Top(t)
         r == IF Throws(f.a) THEN "throw" ELSE ""
     IN DoEnd(t, f.op, f.p, f.a, f.b, r) /\ g' = GhostEv("end", t, f.op, f.p, f.a, f.b, r)
  /\ todo' = [todo EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<now, pr>>
MLin(t) == Lin(t) /\ g' = GhostLin(t) /\ UNCHANGED <<pr, todo>>
MTick ==
  /\ \E d \in Deadlines : d > now /\ now' = d /\ \A e \in Deadlines : e > now => d <= e
  /\ UNCHANGED <<st, s, pr, todo, g>>
\* everything has come to rest; anything else without a successor is a deadlock
Rest == Quiet /\ \A t \in Threads : Idle(t) => ~HasOp(t)
MNext ==
  \/ \E t \in Threads : MCall(t) \/ MRet(t) \/ MBegin(t) \/ MEnd(t) \/ MLin(t)
  \/ MTick
  \/ Rest /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------------------------------------------ properties *)
Up(c) == s.alive[c] = "up" /\ c \in s.made
\* what a client gets was given to that very request, and only once
Own == \A r \in DOMAIN g.fin : s.info[r].o = 1 => \A i \in DOMAIN g.fin[r] : g.fin[r][i] \in Get(g.ans, r, {})
Once == \A r \in DOMAIN g.fin : Len(g.fin[r]) = 1
\* at rest a request without an answer is still in the server's hands
Resolved == Rest => \A r \in s.pend : Up(Mine(r)) =>
  /\ s.alive[0] = "up" /\ r \in s.live /\ s.rob[r] \in {"kept", "run"}
\* ... every client knows whether the service is there
Known == Rest => \A c \in Clients : Up(c) =>
  LET v == IF s.alive[0] = "up" THEN s.pav ELSE 0 IN
  s.rav[c] = v /\ Get(g.told, c, 0) = v
\* ... the server knows who subscribed, and the subscribed the last value
Fresh == Rest => \A k \in DOMAIN s.regs : Up(k[1]) =>
  k \in s.subs /\ (k[2] = 11 => s.cache[k[1]] = s.prop[1])
=============================================================================
