------------------------------- MODULE Queue -------------------------------
(* The blocking queues (maf::threading::Queue, PriorityQueue).  Object 1 is a FIFO queue,  *)
(* object 2 a priority queue (greatest first; the programs use distinct values).           *)
EXTENDS Calls

Objs == 1..2
Prio(p) == p = 2

Init == InitCalls /\ s = [q |-> [p \in Objs |-> <<>>], closed |-> [p \in Objs |-> FALSE]]

\* where the next item is taken from
Max(q) == CHOOSE v \in Range(q) : \A w \in Range(q) : w <= v
Next(p) == IF Prio(p) THEN Max(s.q[p]) ELSE Head(s.q[p])
Remove(q, v) ==
  LET i == CHOOSE i \in DOMAIN q : q[i] = v /\ \A j \in 1..(i - 1) : q[j] # v
  IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
RECURSIVE Str(_)
Str(q) == IF q = <<>> THEN "" ELSE ToString(Head(q)) \o " " \o Str(Tail(q))
RECURSIVE Sorted(_)
Sorted(q) == IF q = <<>> THEN <<>> ELSE <<Max(q)>> \o Sorted(Remove(q, Max(q)))

Pops == {"wait", "waitfor", "waituntil", "trypop"}
Timed(f) == f.op \in {"waitfor", "waituntil"}
Expired(f) == f.op = "trypop" \/ (Timed(f) /\ now >= f.n + f.a)

Lin(t) ==
  LET f == Top(t)
      p == f.p
  IN
  /\ InCall(t) /\ f.ph = "called"
  /\ \/ /\ f.op \in {"push", "pushm"}
        /\ s' = IF s.closed[p] THEN s ELSE [s EXCEPT !.q[p] = Append(@, f.a)]
        /\ st' = Done(t, "void")
     \/ /\ f.op = "pushseq"
        /\ s' = IF s.closed[p] THEN s
                ELSE [s EXCEPT !.q[p] = @ \o [i \in 1..f.b |-> f.a + i - 1]]
        /\ st' = Done(t, "void")
     \/ /\ f.op \in Pops /\ s.q[p] # <<>> /\ ~s.closed[p]
        /\ st' = Done(t, ToString(Next(p)))
        /\ s' = [s EXCEPT !.q[p] = Remove(@, Next(p))]
     \/ /\ f.op \in Pops /\ (s.closed[p] \/ (s.q[p] = <<>> /\ Expired(f)))
        /\ st' = Done(t, "none") /\ UNCHANGED s
     \/ /\ f.op = "close" /\ s' = [s EXCEPT !.closed[p] = TRUE] /\ st' = Done(t, "void")
     \/ /\ f.op = "reopen" /\ s' = [s EXCEPT !.closed[p] = FALSE] /\ st' = Done(t, "void")
     \/ /\ f.op = "clear" /\ s' = [s EXCEPT !.q[p] = <<>>] /\ st' = Done(t, "void")
     \/ /\ f.op = "clearcb" /\ s' = [s EXCEPT !.q[p] = <<>>]
        /\ st' = Done(t, Str(IF Prio(p) THEN Sorted(s.q[p]) ELSE s.q[p]))
     \/ /\ f.op = "size" /\ st' = Done(t, ToString(Len(s.q[p]))) /\ UNCHANGED s
     \/ /\ f.op = "empty" /\ st' = Done(t, Bool(s.q[p] = <<>>)) /\ UNCHANGED s
     \/ /\ f.op = "isclosed" /\ st' = Done(t, Bool(s.closed[p])) /\ UNCHANGED s
  /\ UNCHANGED now

Local(t) == FALSE

Blocked(t) ==
  LET f == Top(t) IN
  /\ InCall(t) /\ f.ph = "called"
  /\ f.op \in {"wait", "waitfor", "waituntil"}
  /\ s.q[f.p] = <<>> /\ ~s.closed[f.p] /\ ~Expired(f)
Quiet == \A t \in Threads : Idle(t) \/ Blocked(t)

\* no callbacks here
DoBegin(t, op, p, a, b) == FALSE /\ UNCHANGED <<st, s>>
DoEnd(t, op, p, a, b, r) == FALSE /\ UNCHANGED <<st, s>>
=============================================================================
