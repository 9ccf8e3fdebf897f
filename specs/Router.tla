------------------------------- MODULE Router -------------------------------
(* Named processors and message routing (maf::messaging::routing).  Processors are slots   *)
(* 1..6 of the program; ids are numbers, 0 means unnamed.  Message types: 0 the status     *)
(* notice (value 10 * status + id; status 1 reachable, 2 unreachable), 1 and 2 ordinary.   *)
(* A processor has at most one handler per type.  Its own behaviour is that of Proc.tla,   *)
(* reduced to what matters here.                                                           *)
EXTENDS Calls

Slots == 1..6
Nobody == -1

\* tab: slots in the routing table; lk: thread that holds the table
\* hs: handle -> completion tokens of the recipients; tk: token -> "pending" "ok" "broken"
Init ==
  /\ InitCalls
  /\ s = [id |-> [p \in Slots |-> -1], tab |-> {}, lk |-> Nobody,
          closed |-> [p \in Slots |-> FALSE], q |-> [p \in Slots |-> <<>>],
          sub |-> [p \in Slots |-> {}], hs |-> <<>>, tk |-> <<>>,
          inst |-> [t \in Threads |-> 0]]

Made(p) == s.id[p] >= 0
With(i) == {p \in s.tab : s.id[p] = i}
Item(m, v, k) == [m |-> m, v |-> v, k |-> k]
\* the table in id order
RECURSIVE Order(_)
Order(ps) ==
  IF ps = {} THEN <<>>
  ELSE LET p == CHOOSE p \in ps : \A q \in ps : s.id[p] <= s.id[q] IN <<p>> \o Order(ps \ {p})

Unlocked(t) == s.lk \in {Nobody, t}
Token(t) == Len(s.tk) + 1

\* deliveries under way in a call: rest: recipients to go; cur: 0, or the one that is about to
\* get it; any: somebody got it; tk: tokens; m, v: the message; w: waitable
Job(rest, m, v, w) == [rest |-> rest, cur |-> 0, any |-> FALSE, tk |-> <<>>, m |-> m, v |-> v, w |-> w]
Sending(f) == f.ph = "send"

Accepts(p, m) == ~s.closed[p] /\ m \in s.sub[p]
LinSend(t) ==
  LET f == Top(t)  x == f.x IN
  /\ Sending(f)
  /\ \/ /\ x.cur = 0 /\ x.rest # <<>> /\ UNCHANGED s
        /\ LET p == Head(x.rest) IN
           st' = SetTop(t, [f EXCEPT !.x = [x EXCEPT !.rest = Tail(@),
                                            !.cur = IF Accepts(p, x.m) THEN p ELSE 0]])
     \/ /\ x.cur # 0 /\ ~(x.w /\ s.inst[t] = x.cur)
        /\ LET p == x.cur
               k == IF x.w THEN Token(t) ELSE 0
               s1 == IF s.closed[p] THEN s ELSE [s EXCEPT !.q[p] = Append(@, Item(x.m, x.v, k))]
           IN /\ s' = IF x.w THEN [s1 EXCEPT !.tk = Append(@, IF s.closed[p] THEN "broken" ELSE "pending")]
                      ELSE s1
              \* a message refused because the processor stopped just now: either answer
              /\ \E any \in (IF s.closed[p] THEN {x.any, TRUE} ELSE {TRUE}) :
                 st' = SetTop(t, [f EXCEPT !.x = [x EXCEPT !.cur = 0, !.any = any,
                                                  !.tk = IF x.w THEN Append(@, k) ELSE @]])
     \* the recipient is the thread's own processor: processed on the spot
     \/ /\ x.cur # 0 /\ x.w /\ s.inst[t] = x.cur
        /\ IF x.m \in s.sub[x.cur]
           THEN st' = SetTop(t, [f EXCEPT !.ph = "inline"]) /\ UNCHANGED s
           ELSE /\ s' = [s EXCEPT !.tk = Append(@, "ok")]
                /\ st' = SetTop(t, [f EXCEPT !.x = [x EXCEPT !.cur = 0, !.any = TRUE, !.tk = Append(@, Token(t))]])

Finished(f) == Sending(f) /\ f.x.rest = <<>> /\ f.x.cur = 0
Msg(b) == b \div 100
Val(b) == b % 100

LinCreate(t) ==
  LET f == Top(t) IN
  \/ /\ f.op = "create" /\ f.ph = "called" /\ f.a = 0
     /\ s' = [s EXCEPT !.id[f.p] = 0] /\ st' = Done(t, "true")
  \/ /\ f.op = "create" /\ f.ph = "called" /\ f.a > 0 /\ Unlocked(t)
     /\ IF With(f.a) # {} THEN st' = Done(t, "false") /\ UNCHANGED s
        ELSE /\ s' = [s EXCEPT !.lk = t]
             /\ st' = PhX(t, "send", Job(Order(s.tab), 0, 10 + f.a, FALSE))
  \/ /\ f.op = "create" /\ Finished(f)
     /\ s' = [s EXCEPT !.lk = Nobody, !.tab = @ \cup {f.p}, !.id[f.p] = f.a]
     /\ st' = Done(t, "true")

LinStop(t) ==
  LET f == Top(t)  p == f.p IN
  /\ f.op = "stop"
  /\ \/ /\ f.ph = "called" /\ s.closed[p] /\ st' = Done(t, "void") /\ UNCHANGED s
     \/ /\ f.ph = "called" /\ ~s.closed[p] /\ st' = Ph(t, "close") /\ UNCHANGED s
     \/ /\ f.ph = "close" /\ s' = [s EXCEPT !.closed[p] = TRUE] /\ st' = Ph(t, "clear")
     \/ /\ f.ph = "clear"
        /\ s' = [s EXCEPT !.q[p] = <<>>,
                   !.tk = [k \in DOMAIN @ |-> IF \E i \in DOMAIN s.q[p] : s.q[p][i].k = k THEN "broken" ELSE @[k]]]
        /\ st' = IF s.id[p] = 0 THEN Done(t, "void") ELSE Ph(t, "leave")
     \/ /\ f.ph = "leave" /\ Unlocked(t)
        /\ s' = [s EXCEPT !.tab = @ \ {p}]
        /\ st' = IF p \in s.tab THEN Ph(t, "left") ELSE Done(t, "void")
     \/ /\ f.ph = "left" /\ Unlocked(t)
        /\ s' = [s EXCEPT !.lk = t]
        /\ st' = PhX(t, "send", Job(Order(s.tab), 0, 20 + s.id[p], FALSE))
     \/ /\ Finished(f) /\ s' = [s EXCEPT !.lk = Nobody] /\ st' = Done(t, "void")

First(S) == CHOOSE x \in S : TRUE
LinRoute(t) ==
  LET f == Top(t) IN
  \/ /\ f.op = "find" /\ f.ph = "called" /\ Unlocked(t) /\ UNCHANGED s
     \* (the driver does not know a processor before the call that makes it has returned)
     /\ st' = Done(t, IF With(f.a) = {} THEN "0"
                      ELSE LET p == First(With(f.a)) IN
                           IF \E u \in Threads : \E i \in DOMAIN st[u] : st[u][i].op = "create" /\ st[u][i].p = p
                           THEN "*" ELSE ToString(p))
  \/ /\ f.op \in {"rpost", "rsend"} /\ f.ph = "called" /\ Unlocked(t) /\ UNCHANGED s
     /\ st' = PhX(t, "send", Job(Order(With(f.a)), Msg(f.b), Val(f.b), f.op = "rsend"))
  \/ /\ f.op = "rall" /\ f.ph = "called" /\ Unlocked(t)
     /\ s' = [s EXCEPT !.lk = t]
     /\ st' = PhX(t, "send", Job(Order(s.tab), Msg(f.b), Val(f.b), FALSE))
  \/ /\ f.op = "rsall" /\ f.ph = "called" /\ Unlocked(t) /\ UNCHANGED s
     /\ st' = PhX(t, "send", Job(Order(s.tab), Msg(f.b), Val(f.b), TRUE))
  \/ /\ f.op = "post" /\ f.ph = "called" /\ UNCHANGED s       \* directly, not routed
     /\ st' = PhX(t, "send", Job(<<f.p>>, Msg(f.b), Val(f.b), FALSE))
  \/ /\ f.op \in {"rpost", "rall", "post"} /\ Finished(f)
     /\ s' = IF f.op = "rall" THEN [s EXCEPT !.lk = Nobody] ELSE s
     /\ st' = Done(t, Bool(f.x.any))
  \/ /\ f.op \in {"rsend", "rsall"} /\ Finished(f)
     /\ s' = [s EXCEPT !.hs = Put(@, f.p, f.x.tk)]
     /\ st' = Done(t, IF f.x.tk = <<>> THEN "invalid" ELSE "valid")

TokenDone(t, k, how) == IF k = 0 THEN s ELSE [s EXCEPT !.tk[k] = how]
LinServe(t) ==
  LET f == Top(t)  p == f.p IN
  /\ f.op = "serve"
  /\ \/ /\ f.ph = "called" /\ s' = [s EXCEPT !.inst[t] = p] /\ st' = Ph(t, "loop")
     \/ /\ f.ph = "loop" /\ ~s.closed[p] /\ s.q[p] # <<>>
        /\ s' = [s EXCEPT !.q[p] = Tail(@)]
        /\ st' = PhX(t, "took", s.q[p][1])
     \/ /\ f.ph = "took" /\ f.x.m \notin s.sub[p]
        /\ s' = TokenDone(t, f.x.k, "ok") /\ st' = Ph(t, "loop")
     \/ /\ f.ph = "took" /\ f.x.m \in s.sub[p] /\ UNCHANGED s /\ st' = Ph(t, "due")
     \/ /\ f.ph = "handled" /\ s' = TokenDone(t, f.x.k, "ok") /\ st' = Ph(t, "loop")
     \/ /\ f.ph = "loop" /\ (s.closed[p] \/ (s.q[p] = <<>> /\ now >= f.n + f.a))
        /\ s' = [s EXCEPT !.inst[t] = 0] /\ st' = Done(t, "void")

HState(h) ==
  LET ks == Get(s.hs, h, <<>>)
      un == {i \in DOMAIN ks : s.tk[ks[i]] # "ok"}
  IN IF ks = <<>> THEN "invalid"
     ELSE IF un = {} THEN "ok"
     ELSE LET i == CHOOSE i \in un : \A j \in un : i <= j IN s.tk[ks[i]]
LinMisc(t) ==
  LET f == Top(t)  p == f.p IN
  /\ f.ph = "called"
  /\ \/ /\ f.op = "reuse" /\ s' = [s EXCEPT !.closed[p] = FALSE] /\ st' = Done(t, "void")
     \/ /\ f.op = "sub" /\ s' = [s EXCEPT !.sub[p] = @ \cup {f.a}] /\ st' = Done(t, "void")
     \/ /\ f.op = "unsub" /\ s' = [s EXCEPT !.sub[p] = @ \ {f.a}] /\ st' = Done(t, "void")
     \/ /\ f.op = "stopped" /\ st' = Done(t, Bool(s.closed[p])) /\ UNCHANGED s
     \/ /\ f.op = "wait" /\ HState(p) # "pending" /\ st' = Done(t, HState(p))
        /\ s' = [s EXCEPT !.hs = Put(@, p, <<>>)]       \* used up

Lin(t) ==
  /\ InCall(t)
  /\ (LinSend(t) \/ LinCreate(t) \/ LinStop(t) \/ LinRoute(t) \/ LinServe(t) \/ LinMisc(t))
  /\ UNCHANGED now
Local(t) ==
  LET f == Top(t) IN
  \/ f.op = "serve" /\ f.ph \in {"called", "handled"} /\ (f.ph = "handled" => f.x.k = 0)
  \/ f.op \in {"rpost", "rsend", "rsall", "post"} /\ Finished(f)

\* handlers: key = 10 * type + processor
BeginOK(t, p, a, v) ==
  LET f == Top(t) IN
  \/ f.op = "serve" /\ f.ph = "due" /\ f.p = p /\ a = 10 * f.x.m + p /\ v = f.x.v
  \/ f.ph = "inline" /\ f.x.cur = p /\ a = 10 * f.x.m + p /\ v = f.x.v
DoBegin(t, op, p, a, v) ==
  /\ op = "h" /\ InCall(t) /\ BeginOK(t, p, a, v)
  /\ st' = Push(t, BodyFrame(op, p, a, v))
  /\ UNCHANGED s
DoEnd(t, op, p, a, v, r) ==
  /\ IsTopBody(t, op, p, a, v)
  /\ LET u == Under(t)  n == Len(st[t]) IN
     IF u.op = "serve" THEN st' = EndBody(t, "handled") /\ UNCHANGED s
     ELSE /\ st' = [st EXCEPT ![t] = Append(SubSeq(@, 1, n - 2),
                      [u EXCEPT !.ph = "send", !.x = [u.x EXCEPT !.cur = 0, !.any = TRUE, !.tk = Append(@, Token(t))]])]
          /\ s' = [s EXCEPT !.tk = Append(@, "ok")]

NeedsTable(f) ==
  \/ f.op \in {"create", "find", "rpost", "rsend", "rall", "rsall"} /\ f.ph = "called"
  \/ f.op = "stop" /\ f.ph \in {"leave", "left"}
Blocked(t) ==
  LET f == Top(t) IN
  /\ InCall(t)
  /\ \/ NeedsTable(f) /\ ~Unlocked(t)
     \/ f.op = "wait" /\ f.ph = "called" /\ HState(f.p) = "pending"
     \/ f.op = "serve" /\ f.ph = "loop" /\ ~s.closed[f.p] /\ s.q[f.p] = <<>> /\ now < f.n + f.a
Quiet == \A t \in Threads : Idle(t) \/ Blocked(t)
=============================================================================
