----------------------------- MODULE MCSignal -----------------------------
(* Closed exploration of Signal: every behaviour of each program in $PROGS (JSON lines:     *)
(* setup: ops, threads: seq of ops, bodies: callback number -> ops; an op is               *)
(* <<name, p, a, b>>).  Written by tools/mktrace.py from Signal.mc.                          *)
EXTENDS Signal, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES pr, todo, g
Prog == Progs[pr]
BodyOps(k) == IF k \in 1..Len(Prog.bodies) THEN Prog.bodies[k] ELSE <<>>
Throws(k) == \E i \in 1..Len(Prog.throws) : Prog.throws[i] = k
HasOp(t) == todo[t] # <<>> /\ todo[t][Len(todo[t])] # <<>>
NextOp(t) == Head(todo[t][Len(todo[t])])
mvars == <<st, s, now, pr, todo, g>>

\* ghost: for every emission in progress the slots connected at its start and those that had
\* their turn; ok: no emission so far missed, repeated or reordered one
Ghost0 == [em |-> <<>>, ok |-> TRUE]
Key(t) == <<t, Len(st[t])>>
Uids(p) == {s.sl[p][i][2] : i \in DOMAIN s.sl[p]}
Turned(gg, k, n) ==
  [gg EXCEPT !.em[k].turns = Append(@, n),
             !.ok = @ /\ \A i \in DOMAIN gg.em[k].turns : gg.em[k].turns[i] < n]
GhostEv(k, t, op, p, a, b, r) ==
  IF k = "begin" /\ Emitting(Top(t)) THEN Turned(g, Key(t), NextIn(Top(t))[1][2]) ELSE g
GhostLin(t) ==
  LET f == Top(t) IN
  IF f.op = "emit" /\ f.ph = "called"
  THEN [g EXCEPT !.em = Put(@, Key(t), [start |-> Uids(f.p), turns |-> <<>>])]
  ELSE IF Emitting(f) /\ NextIn(f) # <<>>
  THEN LET g1 == IF st'[t][Len(st[t])].x = f.x THEN g ELSE Turned(g, Key(t), NextIn(f)[1][2]) IN
       IF Len(st'[t]) > Len(st[t])
       THEN [g1 EXCEPT !.em = Put(@, <<t, Len(st'[t])>>, [start |-> Uids(st'[t][Len(st'[t])].p), turns |-> <<>>])]
       ELSE g1
  ELSE IF Emitting(f) /\ NextIn(f) = <<>>
  THEN LET e == g.em[Key(t)] IN
       [g EXCEPT !.ok = @ /\ (Single(f.p) \/ (e.start \cap Uids(f.p)) \subseteq Range(e.turns)),
                 !.em = [k \in DOMAIN @ \ {Key(t)} |-> @[k]]]
  ELSE IF Len(st'[t]) < Len(st[t]) \/ f.ph = "threw"
  THEN [g EXCEPT !.em = [k \in DOMAIN @ \ {Key(t)} |-> @[k]]]
  ELSE g
Begins(t) ==
  IF ~InCall(t) THEN {} ELSE
  LET f == Top(t) IN
  {e \in (IF Emitting(f) /\ NextIn(f) # <<>> THEN {<<"slot", f.p, NextIn(f)[1][1], f.a>>}
          ELSE IF f.op = "drain" /\ s.exq[f.p] # <<>>
          THEN {<<"slot", s.exq[f.p][1][1], s.exq[f.p][1][2], s.exq[f.p][1][3]>>}
          ELSE IF f.op = "fwait" /\ f.ph = "called" /\ s.fut[f.a] >= 0
          THEN {<<"slot", s.c[f.a].p, f.a, s.fut[f.a]>>} ELSE {}) :
     BeginOK(t, e[2], e[3], e[4])}
Deadlines == {Top(t).n + Top(t).b : t \in {u \in Threads : InCall(u) /\ Top(u).op = "fwait" /\ Top(u).b > 0}}

MInit ==
  /\ Init /\ pr \in 1..Len(Progs) /\ g = Ghost0
  /\ todo = [t \in Threads |-> IF t = 0 THEN <<Progs[pr].setup>>
               ELSE IF t \in 1..Len(Progs[pr].threads) THEN <<Progs[pr].threads[t]>> ELSE <<>>]
MCall(t) ==
  /\ HasOp(t) /\ ~InCall(t)
  /\ t # 0 => ~HasOp(0) /\ Idle(0)
  /\ LET o == NextOp(t) IN
       DoCall(t, o[1], o[2], o[3], o[4]) /\ g' = GhostEv("call", t, o[1], o[2], o[3], o[4], "")
  /\ todo' = [todo EXCEPT ![t][Len(todo[t])] = Tail(@)]
  /\ UNCHANGED <<now, pr>>
MRet(t) ==
  /\ InCall(t) /\ Top(t).ph = "done"
  /\ LET f == Top(t) IN
       DoRet(t, f.op, f.p, f.a, f.b, f.res) /\ g' = GhostEv("ret", t, f.op, f.p, f.a, f.b, f.res)
  /\ UNCHANGED <<now, pr, todo>>
MBegin(t) ==
  \E e \in Begins(t) :
    /\ DoBegin(t, e[1], e[2], e[3], e[4]) /\ g' = GhostEv("begin", t, e[1], e[2], e[3], e[4], "")
    /\ todo' = [todo EXCEPT ![t] = Append(@, BodyOps(e[3]))]
    /\ UNCHANGED <<now, pr>>
MEnd(t) ==
  /\ InBody(t) /\ ~HasOp(t)
  /\ LET f == Top(t)
         r == IF Throws(f.a) THEN "throw" ELSE ""
     IN DoEnd(t, f.op, f.p, f.a, f.b, r) /\ g' = GhostEv("end", t, f.op, f.p, f.a, f.b, r)
  /\ todo' = [todo EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<now, pr>>
MLin(t) == Lin(t) /\ g' = GhostLin(t) /\ UNCHANGED <<pr, todo>>
MTick ==
  /\ \E d \in Deadlines : d > now /\ now' = d /\ \A e \in Deadlines : e > now => d <= e
  /\ UNCHANGED <<st, s, pr, todo, g>>
\* everything has come to rest; anything else without a successor is a deadlock
Rest == Quiet /\ \A t \in Threads : Idle(t) => ~HasOp(t)
MNext ==
  \/ \E t \in Threads : MCall(t) \/ MRet(t) \/ MBegin(t) \/ MEnd(t) \/ MLin(t)
  \/ MTick
  \/ Rest /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------------------------------------------ properties *)
EmissionsSound == g.ok
\* C07: a connection is connected exactly while its slot is in the signal's list
ViewAgrees == \A c \in DOMAIN s.c :
  On(c) <=> \E i \in DOMAIN s.sl[s.c[c].p] : s.sl[s.c[c].p][i][1] = c
\* C08: when everything is at rest no signal is being emitted by an idle thread
RestFree == Rest => \A p \in Sigs : s.own[p] = NoOne \/ ~Idle(s.own[p])
\* C08: a slot is disconnected from outside only while no other thread emits its signal
DisconnectWaits ==
  [][\A c \in DOMAIN s.c : s.c[c].s = "on" /\ s'.c[c].s = "off"
        => \A t \in Threads : s.own[s.c[c].p] = t => InCall(t) /\ st'[t] # st[t]]_mvars
=============================================================================
