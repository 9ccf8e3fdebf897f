------------------------------- MODULE MCProc -------------------------------
(* Closed exploration of Proc: every behaviour of each program in $PROGS.               *)
(* A program: [threads: seq of seq of ops, bodies: seq of seq of ops, throws: seq of     *)
(* task numbers]; an op is <<name, p, a, b>>.                                            *)
EXTENDS Proc, Json, IOUtils

Progs == ndJsonDeserialize(IOEnv.PROGS)

VARIABLES pr, todo, acc, taken, ended, ghostClosed
mvars == <<vars, pr, todo, acc, taken, ended, ghostClosed>>

Prog == Progs[pr]
Body(k) == IF k \in 1..Len(Prog.bodies) THEN Prog.bodies[k] ELSE <<>>
Throws(k) == \E i \in 1..Len(Prog.throws) : Prog.throws[i] = k

MInit ==
  /\ Init
  /\ pr \in 1..Len(Progs)
  /\ todo = [t \in Threads |->
               IF t = 0 THEN << Progs[pr].setup >>
               ELSE IF t \in 1..Len(Progs[pr].threads) THEN << Progs[pr].threads[t] >> ELSE <<>>]
  /\ acc = [p \in Procs |-> <<>>]
  /\ taken = [p \in Procs |-> <<>>]
  /\ ended = {}
  /\ ghostClosed = [p \in Procs |-> FALSE]

HeadOp(t) == Head(todo[t][Len(todo[t])])
HasOp(t) == todo[t] # <<>> /\ todo[t][Len(todo[t])] # <<>>
Advance(t) == [todo EXCEPT ![t][Len(todo[t])] = Tail(@)]
Enter(t, ops) == [todo EXCEPT ![t] = Append(@, ops)]
Leave(t) == [todo EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]

ghosts == <<acc, taken, ended, ghostClosed>>

MCall(t) ==
  /\ HasOp(t) /\ ~InCall(t)
  /\ t # 0 => ~HasOp(0) /\ Idle(0)     \* the setup comes first
  /\ LET o == HeadOp(t) IN DoCall(t, o[1], o[2], o[3], o[4])
  /\ todo' = Advance(t)
  /\ UNCHANGED <<now, pr, ghosts>>

MRet(t) ==
  /\ InCall(t) /\ Top(t).ph = "done"
  /\ LET f == Top(t) IN DoRet(t, f.op, f.p, f.a, f.b, f.res)
  /\ UNCHANGED <<now, pr, todo, ghosts>>

MBegin(t) ==
  \/ /\ InCall(t) /\ Top(t).ph = "x"
     /\ LET f == Top(t) IN
        \/ /\ f.item.kind = "task"
           /\ DoBegin(t, "task", f.item.p, f.item.a, 0)
           /\ todo' = Enter(t, Body(f.item.a))
        \/ /\ f.item.kind = "slot"
           /\ DoBegin(t, "slot", f.item.m, f.item.a, f.item.v)
           /\ todo' = Enter(t, Body(f.item.a))
        \/ /\ f.item.kind = "msg"
           /\ \E i \in DOMAIN f.rest :
                /\ DoBegin(t, "handler", f.item.p, f.rest[i], f.item.v)
                /\ todo' = Enter(t, Body(f.rest[i]))
     /\ UNCHANGED <<now, pr, ghosts>>
  \/ /\ InCall(t) /\ Top(t).ph = "se" /\ NextSlot(Top(t)) # 0
     /\ LET f == Top(t) c == NextSlot(f) IN
        /\ DoBegin(t, "slot", f.o, c, f.v)
        /\ todo' = Enter(t, Body(c))
     /\ UNCHANGED <<now, pr, ghosts>>
  \/ /\ InCall(t) /\ Top(t).ph = "deinit" /\ Top(t).op = "arun"
     /\ DoBegin(t, "tdeinit", Top(t).p, 0, 0)
     /\ todo' = Enter(t, <<>>)
     /\ UNCHANGED <<now, pr, ghosts>>
  \/ /\ t = CHOOSE x \in Threads : x > Len(Prog.threads) /\ Idle(x)
     /\ \E p \in Procs : DoBegin(t, "tinit", p, 0, 0)
     /\ todo' = Enter(t, <<>>)
     /\ UNCHANGED <<now, pr, ghosts>>

MEnd(t) ==
  /\ ~Idle(t) /\ ~InCall(t) /\ ~HasOp(t)
  /\ LET f == Top(t) IN
       /\ DoEnd(t, f.op, f.p, f.a, f.b, f.op = "task" /\ Throws(f.a))
       /\ ended' = IF f.op = "task" THEN ended \cup {f.a}
                   ELSE IF f.op = "slot" THEN ended \cup {1000 * f.a + f.b} ELSE ended
  /\ todo' = Leave(t)
  /\ UNCHANGED <<now, pr, acc, taken, ghostClosed>>

\* ghosts: what was accepted into each queue, what was taken from it
MLin(t) ==
  /\ Lin(t)
  /\ acc' = [p \in Procs |-> IF Len(q'[p]) > Len(q[p]) THEN Append(acc[p], q'[p][Len(q'[p])]) ELSE acc[p]]
  /\ taken' = [p \in Procs |->
        IF Len(q'[p]) < Len(q[p]) /\ Top(t).op \in RunOps THEN Append(taken[p], Head(q[p])) ELSE taken[p]]
  /\ UNCHANGED <<pr, todo, ended>>
  /\ ghostClosed' = [p \in Procs |-> ghostClosed[p] \/ closed'[p]]

PendingDeadlines ==
  {Deadline(Top(t)) : t \in {x \in Threads : InCall(x) /\ Timed(Top(x))}}
    \cup {Top(t).n + Top(t).b : t \in {x \in Threads : InCall(x) /\ Top(x).op = "waitfor"}}
MTick ==
  /\ \E d \in PendingDeadlines : d > now /\ now' = d /\ \A e \in PendingDeadlines : e > now => d <= e
  /\ UNCHANGED <<closed, dead, q, st, inst, hs, hd, hub, cs, asy, sg, pr, todo, ghosts>>

Stuck == /\ Quiet
         /\ \A t \in Threads : Idle(t) => ~HasOp(t)

MNext ==
  \/ \E t \in Threads : MCall(t) \/ MRet(t) \/ MBegin(t) \/ MEnd(t) \/ MLin(t)
  \/ MTick
  \/ Stuck /\ UNCHANGED mvars     \* anything else without a successor is a deadlock of the spec

MSpec == MInit /\ [][MNext]_mvars

(* ------------------------------------------------------------------ properties *)
IsPrefixOrdered(s, whole) ==
  \* s is a subsequence of whole, each element used once, order kept
  \E f \in [DOMAIN s -> DOMAIN whole] :
     /\ \A i \in DOMAIN s : whole[f[i]] = s[i]
     /\ \A i, j \in DOMAIN s : i < j => f[i] < f[j]
\* C01: what a processor runs is, in order and without repetition, what it accepted
FifoOnce == \A p \in Procs : Len(acc[p]) <= 5 => IsPrefixOrdered(taken[p], acc[p])
\* C01: with open processors nothing accepted is lost
NothingLost == \A p \in Procs :
  (~\E t \in Threads : TRUE /\ closed[p]) =>
     (\A i \in DOMAIN q[p] : \E j \in DOMAIN acc[p] : acc[p][j] = q[p][i])
\* C01: two bodies of one processor's queued tasks overlap only with two runners
Runners(p) == {t \in Threads : \E i \in DOMAIN st[t] : st[t][i].op \in RunOps /\ st[t][i].p = p}
Running(p) == {t \in Threads : \E i \in DOMAIN st[t] :
                 st[t][i].op \in RunOps /\ st[t][i].p = p /\ st[t][i].ph = "in"}
OnRunner == \A p \in Procs : Running(p) \subseteq Runners(p)
\* C02: a stopped processor's runs have ended once everything has settled, nothing is pending
StopEnds == Stuck => \A p \in Procs : closed[p] =>
   /\ q[p] = <<>>
   /\ \A t \in Threads : ~(InCall(t) /\ Top(t).op \in RunOps /\ Top(t).p = p)
\* C02: nothing is taken from a processor while it is closed
NoTakeClosed == [][\A p \in Procs : closed[p] => taken'[p] = taken[p]]_mvars
\* C03: a handle is ready only after its task ended; no handle stays pending in vain
ReadyMeansEnded == \A p \in Procs : \A i \in DOMAIN acc[p] :
   (acc[p][i].kind = "task" /\ acc[p][i].h # 0 /\ H(acc[p][i].h) \in {"ok", "exc"})
      => acc[p][i].a \in ended
NoStranded == Stuck => \A h \in DOMAIN hs : hs[h] = "pending" =>
   \E p \in Procs : ~closed[p] /\ \E i \in DOMAIN q[p] : q[p][i].h = h
\* C10: a slot bound to a processor's executor runs on that processor's thread, one bound to
\* the asynchronous executor never inside the call that submits it
Frames(t) == DOMAIN st[t]
SlotThread == \A t \in Threads : \A i \in Frames(t) : st[t][i].op = "slot" =>
  LET c == st[t][i].a IN
  /\ SlotKind(c) \in {1, 2, 3} => \E j \in 1..(i - 1) : st[t][j].op \in RunOps /\ inst[t] = SlotProc(c)
  /\ SlotKind(c) = 2 => st[t][i - 1].op \in RunOps /\ st[t][i - 1].p = SlotProc(c)
  /\ SlotKind(c) \in {0, 4} => st[t][i - 1].op \in Emits
\* C10: an emission that has passed a blocking slot (of a processor that is not stopped) has
\* waited for it to finish
WaitedFor == \A t \in Threads : \A i \in Frames(t) :
  LET f == st[t][i] IN (f.op = "emit" /\ f.ph \in {"se", "done"}) =>
     \A j \in DOMAIN sg.sl[f.a] :
        LET c == sg.sl[f.a][j][1] IN
        (sg.sl[f.a][j][2] <= f.from /\ SlotKind(c) = 3 /\ ~ghostClosed[SlotProc(c)]) => 1000 * c + f.b \in ended
SignalsFree == Stuck => \A o \in Sigs : sg.own[o] = -1
                          \/ \E t \in Threads : InCall(t) /\ Top(t).op \in Emits /\ Top(t).o = o
\* C04: an accepted message item always names a type somebody was connected to
TypeOK == \A p \in Procs : \A i \in DOMAIN q[p] : q[p][i].kind \in {"task", "msg", "slot"}
=============================================================================
