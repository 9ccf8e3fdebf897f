----------------------------- MODULE MCSock -----------------------------
(* Closed exploration of Sock: every behaviour of each program in $PROGS (JSON lines:     *)
(* setup: ops, threads: seq of ops, bodies: callback number -> ops; an op is               *)
(* <<name, p, a, b>>).  Written by tools/mktrace.py from Sock.mc.                          *)
EXTENDS Sock, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES pr, todo, g
Prog == Progs[pr]
BodyOps(k) == IF k \in 1..Len(Prog.bodies) THEN Prog.bodies[k] ELSE <<>>
Throws(k) == \E i \in 1..Len(Prog.throws) : Prog.throws[i] = k
HasOp(t) == todo[t] # <<>> /\ todo[t][Len(todo[t])] # <<>>
NextOp(t) == Head(todo[t][Len(todo[t])])
mvars == <<st, s, now, pr, todo, g>>

\* ghost: buffers handed over, and those whose sending succeeded
Ghost0 == [got |-> <<>>, sent |-> <<>>]
GhostEv(k, t, op, p, a, b, r) ==
  IF k = "begin" /\ op = "got" THEN [g EXCEPT !.got = Put(@, <<AddrOf(p), a>>, Get(@, <<AddrOf(p), a>>, 0) + 1)]
  ELSE IF k = "ret" /\ op = "send" /\ r = "success" THEN [g EXCEPT !.sent = Put(@, <<p, Id(a, b)>>, Get(@, <<p, Id(a, b)>>, 0) + 1)]
  ELSE g
GhostLin(t) == g
Begins(t) ==
  IF ~InCall(t) \/ Top(t).ph # "running" THEN {}
  ELSE LET p == Top(t).p IN
    {<<"got", p, c.id, c.size>> : c \in Range(s.conn[p])}
    \cup {<<"got", p, Id(s.raw[i].size, i), s.raw[i].size>> : i \in {j \in DOMAIN s.raw : s.raw[j].p = p /\ Complete(s.raw[j])}}
Deadlines == {}

MInit ==
  /\ Init /\ pr \in 1..Len(Progs) /\ g = Ghost0
  /\ todo = [t \in Threads |-> IF t = 0 THEN <<Progs[pr].setup>>
               ELSE IF t \in 1..Len(Progs[pr].threads) THEN <<Progs[pr].threads[t]>> ELSE <<>>]
MCall(t) ==
  /\ HasOp(t) /\ ~InCall(t)
  /\ t # 0 => ~HasOp(0) /\ Idle(0)
  /\ LET o == NextOp(t) IN
       DoCall(t, o[1], o[2], o[3], o[4]) /\ g' = GhostEv("call", t, o[1], o[2], o[3], o[4], "")
  /\ todo' = [todo EXCEPT ![t][Len(todo[t])] = Tail(@)]
  /\ UNCHANGED <<now, pr>>
MRet(t) ==
  /\ InCall(t) /\ Top(t).ph = "done"
  /\ LET f == Top(t) IN
       DoRet(t, f.op, f.p, f.a, f.b, f.res) /\ g' = GhostEv("ret", t, f.op, f.p, f.a, f.b, f.res)
  /\ UNCHANGED <<now, pr, todo>>
MBegin(t) ==
  \E e \in Begins(t) :
    /\ DoBegin(t, e[1], e[2], e[3], e[4]) /\ g' = GhostEv("begin", t, e[1], e[2], e[3], e[4], "")
    /\ todo' = [todo EXCEPT ![t] = Append(@, BodyOps(e[3]))]
    /\ UNCHANGED <<now, pr>>
MEnd(t) ==
  /\ InBody(t) /\ ~HasOp(t)
  /\ LET f == Top(t)
         r == IF Throws(f.a) THEN "throw" ELSE ""
     IN DoEnd(t, f.op, f.p, f.a, f.b, r) /\ g' = GhostEv("end", t, f.op, f.p, f.a, f.b, r)
  /\ todo' = [todo EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<now, pr>>
MLin(t) == Lin(t) /\ g' = GhostLin(t) /\ UNCHANGED <<pr, todo>>
MTick ==
  /\ \E d \in Deadlines : d > now /\ now' = d /\ \A e \in Deadlines : e > now => d <= e
  /\ UNCHANGED <<st, s, pr, todo, g>>
\* everything has come to rest; anything else without a successor is a deadlock
Rest == Quiet /\ \A t \in Threads : Idle(t) => ~HasOp(t)
MNext ==
  \/ \E t \in Threads : MCall(t) \/ MRet(t) \/ MBegin(t) \/ MEnd(t) \/ MLin(t)
  \/ MTick
  \/ Rest /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------------------------------------------ properties *)
Sane == \A a \in Addrs : s.lis[a] # 0 => AddrOf(s.lis[a]) = a /\ s.rs[s.lis[a]] \in {"initing", "init", "closing", "run", "stopping"}
Sent(a, i) == Cardinality({t \in Threads : InCall(t) /\ Top(t).op = "send" /\ Top(t).p = a /\ Id(Top(t).a, Top(t).b) = i
                             /\ Top(t).ph = "done" /\ Top(t).res = "success"})
\* nothing is handed over more often than it was sent, and nothing that was not there whole
Once == \A k \in DOMAIN g.got :
  g.got[k] <= Get(g.sent, k, 0) + Sent(k[1], k[2])
              + Cardinality({i \in DOMAIN s.raw : Id(s.raw[i].size, i) = k[2] /\ s.raw[i].is = "taken" /\ s.raw[i].sent >= 4 + s.raw[i].size})
\* at rest everything sent to a receiver never stopped was handed over
AllThere == \A k \in DOMAIN g.sent : s.stops[k[1]] = 0 /\ s.lis[k[1]] # 0 /\ s.rs[s.lis[k[1]]] = "run" => Get(g.got, k, 0) >= g.sent[k]
Delivered == [][Rest => AllThere]_mvars
=============================================================================
