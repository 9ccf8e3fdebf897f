-------------------------------- MODULE Pool --------------------------------
(* A thread pool: kind 1 starts threads as tasks come, 2 has its threads from the start,    *)
(* 3 too and runs the waiting task of the highest priority first.  Tasks below 100 are      *)
(* disposed of by the pool (begin and end of "done").  Threads of the pool only appear by    *)
(* what they run; what they do between (take a task, note that it runs, forget it) are the   *)
(* internal steps of thread 15.                                                             *)
EXTENDS Calls

Owned(a) == a < 100
Init ==
  /\ InitCalls
  /\ s = [kind |-> 0, max |-> 0, n |-> 0, q |-> <<>>, ts |-> <<>>, by |-> <<>>,
          closed |-> FALSE, stopping |-> FALSE, shut |-> 0, told |-> {}]

\* ts: what became of a task: queued, hand (taken), reg (noted as running), run, ran, off (to be
\* disposed of), disp (being disposed of), gone, refused
At(x) == {a \in DOMAIN s.ts : s.ts[a] = x}
Busy == UNION {At(x) : x \in {"hand", "reg", "run", "ran", "off", "disp"}}
Go(t, x, r) == SetTop(t, [Top(t) EXCEPT !.x = x, !.res = r, !.ph = IF x = <<>> THEN "done" ELSE "run"])
Min(x, y) == IF x < y THEN x ELSE y
After(a) == IF Owned(a) THEN "off" ELSE "gone"

LinCall(t) ==
  LET f == Top(t) IN
  \/ /\ f.op = "mk"
     /\ s' = [s EXCEPT !.kind = f.p, !.max = f.a, !.n = IF f.p = 1 THEN 0 ELSE f.a]
     /\ st' = Done(t, "void")
  \/ /\ f.op = "run"           \* p: priority
     /\ s' = IF s.closed THEN [s EXCEPT !.ts = Put(@, f.a, "refused")]
             ELSE [s EXCEPT !.ts = Put(@, f.a, "queued"), !.q = Append(@, <<f.a, IF s.kind = 3 THEN f.p ELSE 0>>),
                            !.n = IF s.kind = 1 THEN (IF @ < s.max THEN @ + 1 ELSE @) ELSE @]
     /\ st' = Done(t, "void")
  \/ f.op = "max" /\ s' = [s EXCEPT !.max = IF s.kind = 1 THEN f.a ELSE @] /\ st' = Done(t, "void")
  \/ f.op = "active" /\ \E k \in 0..8 : (k <= s.max \/ k <= s.n) /\ st' = Done(t, ToString(k)) /\ UNCHANGED s
  \/ f.op = "waitstop" /\ Get(s.ts, f.a, "") # "" /\ f.a \in s.told /\ st' = Done(t, "void") /\ UNCHANGED s
  \/ /\ f.op \in {"shutdown", "destroy"}
     /\ IF s.shut = 2 THEN st' = Done(t, "void") /\ UNCHANGED s
        ELSE s.shut = 0 /\ s' = [s EXCEPT !.shut = 1, !.closed = TRUE] /\ st' = Go(t, <<<<"stop">>, <<"clear">>, <<"join">>>>, "void")
LinTask(t) ==
  LET f == Top(t) k == f.x[1] IN
  \/ /\ k[1] = "stop"       \* those running now are asked to stop
     /\ s' = [s EXCEPT !.stopping = TRUE]
     /\ st' = Go(t, <<<<"stops", At("reg") \cup At("run") \cup At("ran")>>>> \o Tail(f.x), f.res)
  \/ k[1] = "stops" /\ k[2] = {} /\ st' = Go(t, Tail(f.x), f.res) /\ UNCHANGED s
  \/ /\ k[1] = "clear"
     /\ s' = [s EXCEPT !.q = <<>>, !.ts = [a \in DOMAIN @ |-> IF @[a] = "queued" THEN "gone" ELSE @[a]]]
     /\ st' = Go(t, <<<<"dones", {a \in At("queued") : Owned(a)}>>>> \o Tail(f.x), f.res)
  \/ k[1] = "dones" /\ k[2] = {} /\ st' = Go(t, Tail(f.x), f.res) /\ UNCHANGED s
  \/ k[1] = "join" /\ Busy = {} /\ s' = [s EXCEPT !.shut = 2] /\ st' = Go(t, <<>>, f.res)

\* somebody is going to ask task a to stop
Asked(a) == \E u \in Threads : InCall(u) /\ Top(u).ph = "run" /\ Top(u).x # <<>> /\ Top(u).x[1][1] = "stops" /\ a \in Top(u).x[1][2]
Asking(a) == \E u \in Threads : \E i \in DOMAIN st[u] : st[u][i].body /\ st[u][i].op = "stop" /\ st[u][i].p = a
Take ==
  /\ ~s.closed /\ s.q # <<>> /\ Cardinality(Busy) < s.n
  /\ \E i \in 1..Len(s.q) :
       /\ \A j \in 1..Len(s.q) : s.q[j][2] <= s.q[i][2]
       /\ s.kind # 3 => i = 1
       /\ s' = [s EXCEPT !.ts[s.q[i][1]] = "hand", !.q = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
PoolStep ==
  /\ UNCHANGED st
  /\ \/ Take
     \/ \E a \in At("hand") : s' = [s EXCEPT !.ts[a] = IF s.stopping THEN After(a) ELSE "reg"]
     \/ \E a \in At("ran") : ~Asked(a) /\ ~Asking(a) /\ s' = [s EXCEPT !.ts[a] = After(a)]
Lin(t) ==
  /\ \/ InCall(t) /\ Top(t).ph = "called" /\ LinCall(t)
     \/ InCall(t) /\ Top(t).ph = "run" /\ LinTask(t)
     \/ t = 15 /\ PoolStep
  /\ UNCHANGED now
Local(t) == Top(t).ph = "run" /\ (Top(t).x[1][1] \in {"stops", "dones"} /\ Top(t).x[1][2] = {})

\* bodies of tasks are the threads' own; stop and done of waiting tasks are called by shutdown
OnWorker(t, op, p, a) ==
  /\ Idle(t)
  /\ \/ op = "run" /\ a \in At("reg") /\ \A b \in At("ran") \cup At("off") : Get(s.by, b, -1) # t
     \/ op = "done" /\ p \in At("off") /\ a = 300 + p /\ Get(s.by, p, t) = t
InShutdown(t, op, p, a) ==
  /\ InCall(t) /\ Top(t).ph = "run"
  /\ \/ Top(t).x[1][1] = "stops" /\ p \in Top(t).x[1][2] /\ op = "stop" /\ a = 200 + p
     \/ Top(t).x[1][1] = "dones" /\ p \in Top(t).x[1][2] /\ op = "done" /\ a = 300 + p
DoBegin(t, op, p, a, b) ==
  \/ /\ OnWorker(t, op, p, a)
     /\ st' = Push(t, BodyFrame(op, p, a, b))
     /\ s' = IF op = "run" THEN [s EXCEPT !.ts[a] = "run", !.by = Put(@, a, t)] ELSE [s EXCEPT !.ts[p] = "disp"]
  \/ /\ InShutdown(t, op, p, a)
     /\ st' = [st EXCEPT ![t] = Append(SetTop(t, [Top(t) EXCEPT !.x = <<<<@[1][1], @[1][2] \ {p}>>>> \o Tail(@)])[t],
                                       BodyFrame(op, p, a, b))]
     /\ s' = IF op = "stop" THEN [s EXCEPT !.told = @ \cup {p}] ELSE s
DoEnd(t, op, p, a, b, r) ==
  /\ IsTopBody(t, op, p, a, b) /\ st' = Pop(t)
  /\ s' = IF op = "run" THEN [s EXCEPT !.ts[a] = "ran"]
          ELSE IF op = "done" /\ Len(st[t]) = 1 THEN [s EXCEPT !.ts[p] = "gone"] ELSE s

Blocked(t) ==
  LET f == Top(t) IN
  /\ InCall(t)
  /\ \/ f.op = "waitstop" /\ f.ph = "called" /\ f.a \notin s.told
     \/ f.op \in {"shutdown", "destroy"} /\ f.ph = "called" /\ s.shut = 1
     \/ f.ph = "run" /\ f.x[1][1] = "join" /\ Busy # {}
Quiet ==
  /\ \A t \in Threads : Idle(t) \/ Blocked(t)
  /\ \A a \in Busy : s.ts[a] = "run"
  /\ s.q # <<>> => Cardinality(Busy) >= s.n
=============================================================================
