----------------------------- MODULE MCCS -----------------------------
(* Closed exploration of CS: every behaviour of each program in $PROGS (JSON lines:     *)
(* setup: ops, threads: seq of ops, bodies: callback number -> ops; an op is               *)
(* <<name, p, a, b>>).  Written by tools/mktrace.py from CS.mc.                          *)
EXTENDS CS, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES pr, todo, g
Prog == Progs[pr]
BodyOps(k) == IF k \in 1..Len(Prog.bodies) THEN Prog.bodies[k] ELSE <<>>
Throws(k) == \E i \in 1..Len(Prog.throws) : Prog.throws[i] = k
HasOp(t) == todo[t] # <<>> /\ todo[t][Len(todo[t])] # <<>>
NextOp(t) == Head(todo[t][Len(todo[t])])
mvars == <<st, s, now, pr, todo, g>>

\* ghost: fin: final answers taken by the client, seen: what a registration was told last,
\* told: the availability an observer was told last, gone: requests whose abort has returned
Ghost0 == [fin |-> <<>>, seen |-> <<>>, told |-> <<>>, ok |-> TRUE]
GhostEv(k, t, op, p, a, b, r) ==
  IF k = "begin" /\ op = "note" THEN [g EXCEPT !.seen = Put(@, a, b)]
  ELSE IF k = "begin" /\ op = "avail" THEN [g EXCEPT !.told = Put(@, a, b), !.ok = @ /\ b # p]
  ELSE g
GhostLin(t) ==
  LET f == Top(t) IN
  IF f.ph = "run" /\ f.x[1][1] = "receive" /\ f.x[1][3] = 1 /\ f.x[1][2] \in s.pend
  THEN [g EXCEPT !.fin = Put(@, f.x[1][2], Get(@, f.x[1][2], 0) + 1)]
  ELSE g
Begins(t) ==
  IF ~InCall(t) \/ Top(t).ph # "run" THEN {} ELSE
  LET x == Top(t).x[1] IN
  IF x[1] = "dl" /\ x[2] = 0 THEN {<<x[3], x[4], x[5], x[6]>>}
  ELSE IF x[1] = "drain" /\ s.exq[x[2]] # <<>> THEN {s.exq[x[2]][1]} ELSE {}
Deadlines ==
  {Top(t).n + (IF Top(t).op = "sigwait" THEN SigTimeout(Top(t)) ELSE Top(t).b % 1000) :
     t \in {u \in Threads : InCall(u) /\ \/ Top(u).op = "sigwait" /\ SigTimeout(Top(u)) > 0
                                         \/ Top(u).op = "sync" /\ Top(u).b % 1000 > 0}}

MInit ==
  /\ Init /\ pr \in 1..Len(Progs) /\ g = Ghost0
  /\ todo = [t \in Threads |-> IF t = 0 THEN <<Progs[pr].setup>>
               ELSE IF t \in 1..Len(Progs[pr].threads) THEN <<Progs[pr].threads[t]>> ELSE <<>>]
MCall(t) ==
  /\ HasOp(t) /\ ~InCall(t)
  /\ t # 0 => ~HasOp(0) /\ Idle(0)
  /\ LET o == NextOp(t) IN
       DoCall(t, o[1], o[2], o[3], o[4]) /\ g' = GhostEv("call", t, o[1], o[2], o[3], o[4], "")
  /\ todo' = [todo EXCEPT ![t][Len(todo[t])] = Tail(@)]
  /\ UNCHANGED <<now, pr>>
MRet(t) ==
  /\ InCall(t) /\ Top(t).ph = "done"
  /\ LET f == Top(t) IN
       DoRet(t, f.op, f.p, f.a, f.b, f.res) /\ g' = GhostEv("ret", t, f.op, f.p, f.a, f.b, f.res)
  /\ UNCHANGED <<now, pr, todo>>
MBegin(t) ==
  \E e \in Begins(t) :
    /\ DoBegin(t, e[1], e[2], e[3], e[4]) /\ g' = GhostEv("begin", t, e[1], e[2], e[3], e[4], "")
    /\ todo' = [todo EXCEPT ![t] = Append(@, BodyOps(e[3]))]
    /\ UNCHANGED <<now, pr>>
MEnd(t) ==
  /\ InBody(t) /\ ~HasOp(t)
  /\ LET f == Top(t)
         r == IF Throws(f.a) THEN "throw" ELSE ""
     IN DoEnd(t, f.op, f.p, f.a, f.b, r) /\ g' = GhostEv("end", t, f.op, f.p, f.a, f.b, r)
  /\ todo' = [todo EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<now, pr>>
MLin(t) == Lin(t) /\ g' = GhostLin(t) /\ UNCHANGED <<pr, todo>>
MTick ==
  /\ \E d \in Deadlines : d > now /\ now' = d /\ \A e \in Deadlines : e > now => d <= e
  /\ UNCHANGED <<st, s, pr, todo, g>>
\* everything has come to rest; anything else without a successor is a deadlock
Rest == Quiet /\ \A t \in Threads : Idle(t) => ~HasOp(t)
MNext ==
  \/ \E t \in Threads : MCall(t) \/ MRet(t) \/ MBegin(t) \/ MEnd(t) \/ MLin(t)
  \/ MTick
  \/ Rest /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------------------------------------------ properties *)
AllDone == Rest /\ \A e \in 1..2 : s.exq[e] = <<>>
\* a request is answered at most once
Once == g.ok /\ \A r \in DOMAIN g.fin : g.fin[r] <= 1
\* ... and left without an answer only while somebody has it and may still answer
Resolved == AllDone => \A r \in s.pend : r \in s.live /\ s.rob[r] \in {"kept", "run"}
\* registered callbacks know the property
UpToDate == AllDone => \A k \in DOMAIN s.regs : k \in DOMAIN s.prop =>
  \A i \in DOMAIN s.regs[k] :
    LET c == s.regs[k][i] IN s.cinfo[c].e = 3 \/ Get(g.seen, c, -2) = Prop(k)[1]
CacheRight == AllDone => \A k \in DOMAIN s.cache :
  s.rav[k[1]] = 1 => (Regs(k) # <<>> /\ (k \in DOMAIN s.prop => Cached(k)[1] = Prop(k)[1]))
\* requesters and their observers know whether the service is there
StatusKnown == AllDone => \A p \in Sids :
  /\ s.rav[p] = s.pav[p]
  /\ \A i \in DOMAIN s.obs[p] :
       LET n == s.obs[p][i] o == s.oinfo[n] IN
       IF o.k = 2 THEN s.sg[n] = s.rav[p]
       ELSE o.e = 3 \/ Get(g.told, n, 0) = s.rav[p]
\* the server knows who registered
Subscribed == AllDone => \A k \in DOMAIN s.regs : s.regs[k] # <<>> => k \in s.subs
=============================================================================
