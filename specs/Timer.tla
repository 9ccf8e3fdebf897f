------------------------------- MODULE Timer --------------------------------
(* Timers of processors, and synchronous timers.                                            *)
(* Processors p: 1, 2, each run by one thread.  Timers 1..19 have a callback of the same    *)
(* number, 20..29 are signal timers, 50.. one-shot timeouts; bodies of tasks: other numbers. *)
(* A processor's queue holds what is to be done on its thread: tasks, and starts and stops   *)
(* of timers asked for by other threads.                                                    *)
EXTENDS Calls

Init ==
  /\ InitCalls
  /\ s = [tm |-> <<>>, q |-> [p \in 1..2 |-> <<>>], closed |-> [p \in 1..2 |-> FALSE],
          over |-> [p \in 1..2 |-> FALSE], sq |-> 0, os |-> 0, sy |-> <<>>]
\* a timer: on, on processor p; dl: deadline, dur, cyc; sq: when it was started last (in the order
\* of submissions); known: has been started; once: forgotten after it has fired
NoTimer == [on |-> FALSE, p |-> 0, dl |-> 0, dur |-> 0, cyc |-> FALSE, sq |-> 0, known |-> FALSE, once |-> FALSE, ov |-> FALSE]
Tm(a) == Get(s.tm, a, NoTimer)
Due(p) == {a \in DOMAIN s.tm : s.tm[a].on /\ s.tm[a].p = p /\ s.tm[a].dl <= now}
First(a) == \A b \in DOMAIN s.tm : s.tm[b].on /\ s.tm[b].p = s.tm[a].p => s.tm[a].dl <= s.tm[b].dl
\* one-shot timeouts are all different
\* the deadline is known before the timer is in its place among the submissions (Mark)
Later == 100000
Mark(a) == [s EXCEPT !.tm = IF a \in DOMAIN @ THEN [@ EXCEPT ![a].sq = s.sq + 1] ELSE @, !.sq = @ + 1]
OneShot(a) == a + 1000 * (s.os + 1)
Started(tm, a, p, ms, once) ==
  Put(tm, a, [Get(tm, a, NoTimer) EXCEPT !.on = TRUE, !.p = p, !.dl = now + ms, !.dur = ms, !.sq = Later,
              !.known = TRUE, !.once = once, !.ov = FALSE])
Stopped(tm, a) == Put(tm, a, [Get(tm, a, NoTimer) EXCEPT !.on = FALSE])
Push1(p, job) == [s EXCEPT !.q[p] = Append(@, job \o <<s.sq + 1>>), !.sq = @ + 1]
Queue(t, p, job) == IF s.closed[p] THEN UNCHANGED s /\ st' = Done(t, "void") ELSE s' = Push1(p, job) /\ st' = Done(t, "void")

LinTimer(t) ==
  LET f == Top(t) IN
  \/ f.op = "post" /\ Queue(t, f.p, <<"task", f.a, 0>>)
  \/ f.op = "starton" /\ Queue(t, f.p, <<"start", f.a, f.b>>)
  \/ f.op = "stopon" /\ Queue(t, f.p, <<"stop", f.a, 0>>)
  \/ f.op = "afteron" /\ Queue(t, f.p, <<"after", f.a, f.b>>)
  \/ f.op = "start" /\ s' = [s EXCEPT !.tm = Started(@, f.a, f.p, f.b, FALSE)] /\ st' = PhX(t, "mark", <<f.a>>)
  \/ f.op = "after" /\ s' = [s EXCEPT !.tm = Started(@, OneShot(f.a), f.p, f.b, TRUE), !.os = @ + 1] /\ st' = PhX(t, "mark", <<OneShot(f.a)>>)
  \/ f.op = "stop" /\ s' = [s EXCEPT !.tm = Stopped(@, f.a)] /\ st' = Done(t, "void")
  \/ f.op = "del" /\ s' = [s EXCEPT !.tm = Put(@, f.a, NoTimer)] /\ st' = Done(t, "void")
  \/ /\ f.op = "restart"
     /\ IF Tm(f.a).known THEN st' = PhX(t, "mark", <<f.a>>) /\ s' = [s EXCEPT !.tm[f.a].on = TRUE, !.tm[f.a].p = f.p, !.tm[f.a].dl = now + s.tm[f.a].dur,
                                             !.tm[f.a].sq = Later, !.tm[f.a].ov = FALSE]
        ELSE UNCHANGED s /\ st' = Done(t, "void")
  \/ f.op = "running" /\ st' = Done(t, Bool(Tm(f.a).on)) /\ UNCHANGED s
  \/ f.op = "cyc" /\ s' = [s EXCEPT !.tm = Put(@, f.a, [Get(@, f.a, NoTimer) EXCEPT !.cyc = f.b = 1])] /\ st' = Done(t, "void")
  \/ f.op = "halt" /\ s' = [s EXCEPT !.closed[f.p] = TRUE, !.q[f.p] = <<>>] /\ st' = Done(t, "void")
  \/ f.op = "sleep" /\ now >= f.n + f.b /\ st' = Done(t, "void") /\ UNCHANGED s
  \* the thread of a processor: picks what to do next
  \/ f.op = "run" /\ Len(f.x) = 2 /\ s' = Mark(f.x[2]) /\ st' = PhX(t, "called", <<>>)
  \/ f.op = "run" /\ f.x = <<>> /\ s.closed[f.p] /\ st' = Done(t, "void") /\ UNCHANGED s
\* the expired timers overtaken by this job are marked
Over(p, j) == [a \in DOMAIN s.tm |-> IF a \in Due(p) /\ j[4] > s.tm[a].sq THEN [s.tm[a] EXCEPT !.ov = TRUE] ELSE s.tm[a]]
Jobs(t) ==
  LET f == Top(t) p == f.p IN
  /\ f.op = "run" /\ ~s.closed[p] /\ s.q[p] # <<>> /\ f.x = <<>>
  /\ LET j == s.q[p][1] IN
     \* of what was submitted after an expired timer was started, only one can still come before it
     \* (when it arrives just as the processor stops waiting)
     /\ \A a \in Due(p) : j[4] < s.tm[a].sq \/ ~s.tm[a].ov
     /\ CASE j[1] = "task" -> s' = [s EXCEPT !.q[p] = Tail(@), !.tm = Over(p, j)] /\ st' = PhX(t, "called", <<j[2]>>)
          [] j[1] = "start" -> s' = [s EXCEPT !.q[p] = Tail(@), !.tm = Started(Over(p, j), j[2], p, j[3], FALSE)] /\ st' = PhX(t, "called", <<"mark", j[2]>>)
          [] j[1] = "after" -> s' = [s EXCEPT !.q[p] = Tail(@), !.tm = Started(Over(p, j), OneShot(j[2]), p, j[3], TRUE), !.os = @ + 1]
                              /\ st' = PhX(t, "called", <<"mark", OneShot(j[2])>>)
          [] j[1] = "stop" -> s' = [s EXCEPT !.q[p] = Tail(@), !.tm = Stopped(Over(p, j), j[2])] /\ UNCHANGED st

\* synchronous timers: gen counts starts and stops; the callback runs with the timer locked
Sy(a) == Get(s.sy, a, [gen |-> 0, on |-> FALSE, cyc |-> FALSE, rs |-> 0])
Locked(a, t) == \E u \in Threads \ {t} : \E i \in DOMAIN st[u] : st[u][i].body /\ st[u][i].op = "sfire" /\ st[u][i].a = a
SPut(a, v) == [s EXCEPT !.sy = Put(@, a, v)]
LinSync(t) ==
  LET f == Top(t) y == Sy(f.a) IN
  \/ /\ f.op = "sstart" /\ f.ph = "called" /\ ~Locked(f.a, t)
     /\ s' = SPut(f.a, [y EXCEPT !.gen = @ + 1, !.on = TRUE])
     /\ st' = PhX(t, "run", <<y.gen + 1, now + f.b, y.rs>>)
  \/ /\ f.op = "sstart" /\ f.ph = "run" /\ y.gen # f.x[1] /\ ~Locked(f.a, t) /\ st' = Done(t, "void") /\ UNCHANGED s
  \/ /\ f.op = "sstart" /\ f.ph = "fired" /\ y.gen = f.x[1]
     /\ IF y.cyc THEN UNCHANGED s /\ st' = PhX(t, "run", <<f.x[1], now + f.b, y.rs>>)
        ELSE s' = SPut(f.a, [y EXCEPT !.on = FALSE]) /\ st' = Done(t, "void")
  \/ f.op = "sstart" /\ f.ph = "fired" /\ y.gen # f.x[1] /\ st' = Done(t, "void") /\ UNCHANGED s
  \/ /\ f.op = "sstop" /\ f.ph = "called" /\ ~Locked(f.a, t)
     /\ s' = SPut(f.a, IF y.on THEN [y EXCEPT !.gen = @ + 1, !.on = FALSE] ELSE y) /\ st' = Done(t, "void")
  \* counted from now on: who waits starts to wait again
  \/ /\ f.op = "srestart" /\ f.ph = "called" /\ ~Locked(f.a, t) /\ s' = SPut(f.a, [y EXCEPT !.rs = @ + 1])
     /\ st' = [u \in Threads |-> IF u = t THEN Done(t, "void")[t]
                ELSE [i \in DOMAIN st[u] |-> LET g == st[u][i] IN
                       IF g.op = "sstart" /\ g.a = f.a /\ g.ph = "run" /\ g.x[1] = y.gen
                       THEN [g EXCEPT !.x[2] = now + g.b] ELSE g]]
  \/ f.op = "srunning" /\ f.ph = "called" /\ st' = Done(t, Bool(y.on)) /\ UNCHANGED s
  \/ f.op = "scyc" /\ f.ph = "called" /\ ~Locked(f.a, t) /\ s' = SPut(f.a, [y EXCEPT !.cyc = f.b = 1]) /\ st' = Done(t, "void")
Lin(t) ==
  /\ InCall(t)
  /\ \/ Top(t).ph = "called" /\ (LinTimer(t) \/ Jobs(t))
     \/ Top(t).ph = "mark" /\ s' = Mark(Top(t).x[1]) /\ st' = Done(t, "void")
     \/ LinSync(t)
  /\ UNCHANGED now
Local(t) == FALSE

Fired(k) ==
  IF s.tm[k].once THEN [x \in DOMAIN s.tm \ {k} |-> s.tm[x]]
  ELSE [s.tm EXCEPT ![k] = IF @.cyc THEN [@ EXCEPT !.dl = @ + s.tm[k].dur, !.ov = FALSE] ELSE [@ EXCEPT !.on = FALSE]]
DoBegin(t, op, p, a, b) ==
  /\ InCall(t)
  /\ LET f == Top(t) IN
     \/ /\ op = "task" /\ f.op = "run" /\ f.x = <<a>> /\ p = f.p /\ b = 0 /\ UNCHANGED s
        /\ st' = [st EXCEPT ![t] = Append(PhX(t, "called", <<>>)[t], BodyFrame(op, p, a, b))]
     \/ /\ op = "fire" /\ f.op = "run" /\ f.x = <<>> /\ p = f.p /\ b = 0
        \* one that was about to fire when the processor was stopped still does
        /\ ~s.over[p]
        /\ \E k \in Due(p) : k % 1000 = a /\ First(k) /\ s' = [s EXCEPT !.tm = Fired(k), !.over[p] = s.closed[p]]
        /\ st' = Push(t, BodyFrame(op, p, a, b))
     \/ /\ op = "sfire" /\ f.op = "sstart" /\ f.ph = "run" /\ f.a = a /\ p = 0 /\ b = 0
        /\ f.x[1] = Sy(a).gen /\ now >= f.x[2] /\ ~Locked(a, t) /\ UNCHANGED s
        /\ st' = [st EXCEPT ![t] = Append(Ph(t, "fired")[t], BodyFrame(op, p, a, b))]
DoEnd(t, op, p, a, b, r) == IsTopBody(t, op, p, a, b) /\ st' = Pop(t) /\ UNCHANGED s

Blocked(t) ==
  LET f == Top(t) IN
  /\ InCall(t)
  /\ \/ f.op = "run" /\ s.q[f.p] = <<>> /\ f.x = <<>> /\ Due(f.p) = {} /\ ~s.closed[f.p]
     \/ f.op = "sleep" /\ f.ph = "called" /\ now < f.n + f.b
     \/ f.op = "sstart" /\ f.ph = "run" /\ now < f.x[2] /\ Sy(f.a).gen = f.x[1]
     \/ f.ph = "called" /\ f.op \in {"sstart", "sstop", "srestart", "scyc"} /\ Locked(f.a, t)
Quiet == \A t \in Threads : Idle(t) \/ Blocked(t)
=============================================================================
