----------------------------- MODULE MCObs -----------------------------
(* Closed exploration of Obs: every behaviour of each program in $PROGS (JSON lines:     *)
(* setup: ops, threads: seq of ops, bodies: callback number -> ops; an op is               *)
(* <<name, p, a, b>>).  Written by tools/mktrace.py from Obs.mc.                          *)
EXTENDS Obs, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)
VARIABLES pr, todo, g
Prog == Progs[pr]
BodyOps(k) == IF k \in 1..Len(Prog.bodies) THEN Prog.bodies[k] ELSE <<>>
Throws(k) == \E i \in 1..Len(Prog.throws) : Prog.throws[i] = k
HasOp(t) == todo[t] # <<>> /\ todo[t][Len(todo[t])] # <<>>
NextOp(t) == Head(todo[t][Len(todo[t])])
mvars == <<st, s, now, pr, todo, g>>

\* ghost: as in Signal.mc; last: what an observer was told last; sil: objects set silently,
\* quiet: observers that need not be up to date (connected silently, reconnected)
Ghost0 == [em |-> <<>>, ok |-> TRUE, last |-> <<>>, sil |-> {}, quiet |-> {}]
Key(t) == <<t, Len(st[t])>>
Uids(p) == {s.sl[p][i][2] : i \in DOMAIN s.sl[p]}
Turned(gg, k, n) ==
  [gg EXCEPT !.em[k].turns = Append(@, n),
             !.ok = @ /\ \A i \in DOMAIN gg.em[k].turns : gg.em[k].turns[i] < n]
GhostEv(k, t, op, p, a, b, r) ==
  IF k = "begin"
  THEN LET g1 == [g EXCEPT !.last = Put(@, a, b)] IN
       IF Emitting(Top(t)) THEN Turned(g1, Key(t), NextIn(Top(t))[1][2]) ELSE g1
  ELSE IF k = "call" /\ op \in Silents THEN [g EXCEPT !.sil = @ \cup {p}]
  ELSE IF k = "call" /\ op \in {"sconnect", "reconn", "wconnect"} THEN [g EXCEPT !.quiet = @ \cup {a}]
  ELSE g
Emits(f) == Emitting(f)
GhostLin(t) ==
  LET f == Top(t) IN
  IF ~Emitting(f) /\ st'[t] # <<>> /\ Len(st'[t]) >= Len(st[t]) /\ Emits(st'[t][Len(st'[t])])
  THEN LET f2 == st'[t][Len(st'[t])] IN
       [g EXCEPT !.em = Put(@, <<t, Len(st'[t])>>, [start |-> Uids(f2.p), turns |-> <<>>]),
                 !.ok = @ /\ s'.v[f2.p] # s.v[f2.p]]     \* told only about changes
  ELSE IF Emitting(f) /\ NextIn(f) # <<>>
  THEN LET g1 == IF st'[t][Len(st[t])].x = f.x THEN g ELSE Turned(g, Key(t), NextIn(f)[1][2]) IN
       IF Len(st'[t]) > Len(st[t])
       THEN [g1 EXCEPT !.em = Put(@, <<t, Len(st'[t])>>, [start |-> Uids(st'[t][Len(st'[t])].p), turns |-> <<>>])]
       ELSE g1
  ELSE IF Emitting(f) /\ NextIn(f) = <<>>
  THEN LET e == g.em[Key(t)] IN
       [g EXCEPT !.ok = @ /\ (Single(f.p) \/ (e.start \cap Uids(f.p)) \subseteq Range(e.turns)),
                 !.em = [k \in DOMAIN @ \ {Key(t)} |-> @[k]]]
  ELSE IF Len(st'[t]) < Len(st[t]) \/ f.ph = "threw"
  THEN [g EXCEPT !.em = [k \in DOMAIN @ \ {Key(t)} |-> @[k]]]
  ELSE g
Begins(t) ==
  IF ~InCall(t) THEN {} ELSE
  LET f == Top(t) IN
  {e \in (IF Emitting(f) /\ NextIn(f) # <<>> THEN {<<"slot", f.p, NextIn(f)[1][1], Enc(s.v[f.p])>>}
          ELSE IF f.op = "connect" /\ f.ph = "told" THEN {<<"slot", f.p, f.a, f.x[1]>>}
          ELSE IF f.op = "drain" /\ s.exq[f.p] # <<>> /\ s.exq[f.p][1][4] = 0
          THEN {<<"slot", s.exq[f.p][1][1], s.exq[f.p][1][2], s.exq[f.p][1][3]>>}
          ELSE IF f.op = "fwait" /\ f.ph = "called" /\ s.fut[f.a] >= 0
          THEN {<<"slot", s.c[f.a].p, f.a, s.fut[f.a]>>} ELSE {}) :
     BeginOK(t, e[2], e[3], e[4])}
Deadlines == {Top(t).n + Top(t).b : t \in {u \in Threads : InCall(u) /\ Top(u).op = "fwait" /\ Top(u).b > 0}}

MInit ==
  /\ Init /\ pr \in 1..Len(Progs) /\ g = Ghost0
  /\ todo = [t \in Threads |-> IF t = 0 THEN <<Progs[pr].setup>>
               ELSE IF t \in 1..Len(Progs[pr].threads) THEN <<Progs[pr].threads[t]>> ELSE <<>>]
MCall(t) ==
  /\ HasOp(t) /\ ~InCall(t)
  /\ t # 0 => ~HasOp(0) /\ Idle(0)
  /\ LET o == NextOp(t) IN
       DoCall(t, o[1], o[2], o[3], o[4]) /\ g' = GhostEv("call", t, o[1], o[2], o[3], o[4], "")
  /\ todo' = [todo EXCEPT ![t][Len(todo[t])] = Tail(@)]
  /\ UNCHANGED <<now, pr>>
MRet(t) ==
  /\ InCall(t) /\ Top(t).ph = "done"
  /\ LET f == Top(t) IN
       DoRet(t, f.op, f.p, f.a, f.b, f.res) /\ g' = GhostEv("ret", t, f.op, f.p, f.a, f.b, f.res)
  /\ UNCHANGED <<now, pr, todo>>
MBegin(t) ==
  \E e \in Begins(t) :
    /\ DoBegin(t, e[1], e[2], e[3], e[4]) /\ g' = GhostEv("begin", t, e[1], e[2], e[3], e[4], "")
    /\ todo' = [todo EXCEPT ![t] = Append(@, BodyOps(e[3]))]
    /\ UNCHANGED <<now, pr>>
MEnd(t) ==
  /\ InBody(t) /\ ~HasOp(t)
  /\ LET f == Top(t)
         r == IF Throws(f.a) THEN "throw" ELSE ""
     IN DoEnd(t, f.op, f.p, f.a, f.b, r) /\ g' = GhostEv("end", t, f.op, f.p, f.a, f.b, r)
  /\ todo' = [todo EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
  /\ UNCHANGED <<now, pr>>
MLin(t) == Lin(t) /\ g' = GhostLin(t) /\ UNCHANGED <<pr, todo>>
MTick ==
  /\ \E d \in Deadlines : d > now /\ now' = d /\ \A e \in Deadlines : e > now => d <= e
  /\ UNCHANGED <<st, s, pr, todo, g>>
\* everything has come to rest; anything else without a successor is a deadlock
Rest == Quiet /\ \A t \in Threads : Idle(t) => ~HasOp(t)
MNext ==
  \/ \E t \in Threads : MCall(t) \/ MRet(t) \/ MBegin(t) \/ MEnd(t) \/ MLin(t)
  \/ MTick
  \/ Rest /\ UNCHANGED mvars
MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------------------------------------------ properties *)
EmissionsSound == g.ok
\* at rest, whoever observes knows the current value
UpToDate == (Rest /\ \A e \in Execs : s.exq[e] = <<>>) =>
  \A c \in DOMAIN s.c :
    (On(c) /\ Kind(c) \in {0, 1, 7, 21, 22} /\ c \notin g.quiet /\ s.c[c].p \notin g.sil
      /\ ~\E i \in DOMAIN Prog.throws : TRUE)
    => Get(g.last, c, -1) = Enc(s.v[s.c[c].p])
\* ... and a join has the values of its parts
Joined == (Rest /\ g.sil = {} /\ \A e \in Execs : s.exq[e] = <<>>) =>
  \A j \in {3, 8, 10} : (200 + j \in DOMAIN s.c /\ ~\E i \in DOMAIN Prog.throws : TRUE) =>
     s.v[j] = <<s.v[PartsOf(j)[1]][1], s.v[PartsOf(j)[2]][1]>>
ViewAgrees == \A c \in DOMAIN s.c :
  On(c) <=> \E i \in DOMAIN s.sl[s.c[c].p] : s.sl[s.c[c].p][i][1] = c
RestFree == Rest => \A p \in Objs : s.own[p] = NoOne \/ ~Idle(s.own[p])
=============================================================================
