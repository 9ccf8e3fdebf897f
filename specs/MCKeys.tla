----------------------------- MODULE MCKeys -----------------------------
(* Closed exploration of Keys: every behaviour of each program in $PROGS (JSON lines:     *)
(* setup: ops, threads: seq of ops, bodies: callback number -> ops; an op is               *)
(* <<name, p, a, b>>).  Written by tools/mktrace.py from Keys.mc.                          *)
EXTENDS Keys, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES pr, todo, g
Prog == Progs[pr]
BodyOps(k) == IF k \in 1..Len(Prog.bodies) THEN Prog.bodies[k] ELSE <<>>
Throws(k) == \E i \in 1..Len(Prog.throws) : Prog.throws[i] = k
HasOp(t) == todo[t] # <<>> /\ todo[t][Len(todo[t])] # <<>>
NextOp(t) == Head(todo[t][Len(todo[t])])
mvars == <<st, s, now, pr, todo, g>>

\* ghost: how often each identifier was handed out by each manager
Ghost0 == <<>>
GhostEv(k, t, op, p, a, b, r) == IF k = "begin" THEN Put(g, <<p, a>>, Get(g, <<p, a>>, 0) + 1) ELSE g
GhostLin(t) == g
Begins(t) == IF InCall(t) /\ Top(t).ph = "allocating" THEN {<<"got", Top(t).p, v, 0>> : v \in {-1, 0, 1, 2, 3}} ELSE {}
Deadlines == {}

MInit ==
  /\ Init /\ pr \in 1..Len(Progs) /\ g = Ghost0
  /\ todo = [t \in Threads |-> IF t = 0 THEN <<Progs[pr].setup>>
               ELSE IF t \in 1..Len(Progs[pr].threads) THEN <<Progs[pr].threads[t]>> ELSE <<>>]
MCall(t) ==
  /\ HasOp(t) /\ ~InCall(t)
  /\ t # 0 => ~HasOp(0) /\ Idle(0)
  /\ LET o == NextOp(t) IN
       DoCall(t, o[1], o[2], o[3], o[4]) /\ g' = GhostEv("call", t, o[1], o[2], o[3], o[4], "")
  /\ todo' = [todo EXCEPT ![t][Len(todo[t])] = Tail(@)]
  /\ UNCHANGED <<now, pr>>
MRet(t) ==
  /\ InCall(t) /\ Top(t).ph = "done"
  /\ LET f == Top(t) IN
       DoRet(t, f.op, f.p, f.a, f.b, f.res) /\ g' = GhostEv("ret", t, f.op, f.p, f.a, f.b, f.res)
  /\ UNCHANGED <<now, pr, todo>>
MBegin(t) ==
  \E e \in Begins(t) :
    /\ DoBegin(t, e[1], e[2], e[3], e[4]) /\ g' = GhostEv("begin", t, e[1], e[2], e[3], e[4], "")
    /\ todo' = [todo EXCEPT ![t] = Append(@, BodyOps(e[3]))]
    /\ UNCHANGED <<now, pr>>
MEnd(t) ==
  /\ InBody(t) /\ ~HasOp(t)
  /\ LET f == Top(t)
         r == IF Throws(f.a) THEN "throw" ELSE ""
     IN DoEnd(t, f.op, f.p, f.a, f.b, r) /\ g' = GhostEv("end", t, f.op, f.p, f.a, f.b, r)
  /\ todo' = [todo EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<now, pr>>
MLin(t) == Lin(t) /\ g' = GhostLin(t) /\ UNCHANGED <<pr, todo>>
MTick ==
  /\ \E d \in Deadlines : d > now /\ now' = d /\ \A e \in Deadlines : e > now => d <= e
  /\ UNCHANGED <<st, s, pr, todo, g>>
\* everything has come to rest; anything else without a successor is a deadlock
Rest == Quiet /\ \A t \in Threads : Idle(t) => ~HasOp(t)
MNext ==
  \/ \E t \in Threads : MCall(t) \/ MRet(t) \/ MBegin(t) \/ MEnd(t) \/ MLin(t)
  \/ MTick
  \/ Rest /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------------------------------------------ properties *)
\* what has been learnt is a strict order
Order == \A p \in KeyKinds :
  /\ \A a \in Keys : ~Known(p, a, a)
  /\ \A x, y \in s.lt[p] : x[2] = y[1] => <<x[1], y[2]>> \in s.lt[p]
Unique == \A x \in DOMAIN g : g[x] = 1 /\ x[2] >= 0 /\ x[2] < Total(x[1])
=============================================================================
