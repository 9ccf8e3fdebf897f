-------------------------------- MODULE Sock --------------------------------
(* Buffers over local sockets.  Receivers 1 and 3 share address 1, receiver 2 has address 2. *)
(* A receiver is initialised (it listens), run (the call lasts until it is stopped) and        *)
(* stopped.  Senders connect, write one buffer and close; raw peers do so step by step and     *)
(* perhaps never to the end.  Buffers are known by the number in them (0 if empty).            *)
EXTENDS Calls

Recvs == 1..3
Addrs == 1..2
AddrOf(p) == IF p = 3 THEN 1 ELSE p
Id(size, id) == IF size = 0 THEN 0 ELSE id

Init ==
  /\ InitCalls
  /\ s = [rs |-> [p \in Recvs |-> "none"],           \* none, initing, init, closing, run, stopping, stopped
          lis |-> [a \in Addrs |-> 0],               \* who listens at an address
          conn |-> [p \in Recvs |-> <<>>],           \* buffers on their way, as sent
          raw |-> <<>>,                              \* raw peers
          stops |-> [a \in Addrs |-> 0]]

Complete(c) == c.is \in {"open", "closed"} /\ c.sent >= 4 + c.size
\* whoever listened for p no longer does; what was on its way is lost
Closed(z, p, st2) ==
  [z EXCEPT !.rs[p] = st2, !.lis[AddrOf(p)] = 0, !.conn[p] = <<>>, !.stops[AddrOf(p)] = @ + 1,
            !.raw = [i \in DOMAIN @ |-> IF @[i].p = p THEN [@[i] EXCEPT !.is = "gone"] ELSE @[i]]]

Lin(t) ==
  LET f == Top(t)
      p == f.p
  IN
  /\ InCall(t)
  /\ \/ /\ f.ph = "called" /\ f.op = "init"
        /\ LET z == IF s.rs[p] = "init" THEN Closed(s, p, "stopped") ELSE s
               free == z.rs[p] \in {"none", "stopped"} /\ z.lis[AddrOf(p)] = 0
           IN /\ s' = IF free THEN [z EXCEPT !.rs[p] = "initing", !.lis[AddrOf(p)] = p]
                      ELSE IF s.rs[p] = "none" THEN [z EXCEPT !.rs[p] = "stopped"] ELSE z
              /\ st' = IF free THEN Ph(t, "initing") ELSE Done(t, "false")
     \/ /\ f.ph = "initing"                            \* a stop before this comes too early
        /\ s' = [s EXCEPT !.rs[p] = "init"] /\ st' = Done(t, "true")
     \/ /\ f.ph = "called" /\ f.op = "run"
        /\ IF s.rs[p] = "init" THEN s' = [s EXCEPT !.rs[p] = "run"] /\ st' = Ph(t, "running")
           ELSE UNCHANGED s /\ st' = Done(t, "false")
     \/ /\ f.ph = "running" /\ s.rs[p] = "stopping"
        /\ s' = Closed(s, p, "stopped") /\ st' = Done(t, "true")
     \/ /\ f.ph = "called" /\ f.op = "stop"
        /\ s' = CASE s.rs[p] = "init" -> [s EXCEPT !.rs[p] = "closing"]
                  [] s.rs[p] = "run" -> [s EXCEPT !.rs[p] = "stopping"]
                  [] s.rs[p] = "none" -> [s EXCEPT !.rs[p] = "stopped"]
                  [] OTHER -> s
        /\ st' = IF s.rs[p] = "init" THEN Ph(t, "closing") ELSE Done(t, "void")
     \/ /\ f.ph = "closing" /\ s' = Closed(s, p, "stopped") /\ st' = Done(t, "void")
     \/ /\ f.ph = "called" /\ f.op = "running"
        /\ st' = Done(t, Bool(s.rs[p] = "run")) /\ UNCHANGED s
     \/ /\ f.ph = "called" /\ f.op = "send"
        /\ st' = PhX(t, "sending", <<s.stops[p]>>) /\ UNCHANGED s
     \/ /\ f.ph = "sending"
        /\ \/ /\ s.lis[p] = 0 /\ st' = Done(t, "unavailable") /\ UNCHANGED s
           \/ /\ s.lis[p] # 0 /\ st' = Done(t, "success")
              /\ s' = [s EXCEPT !.conn[s.lis[p]] = Append(@, [by |-> t, id |-> Id(f.a, f.b), size |-> f.a])]
           \* lost on the way
           \/ /\ s.stops[p] > f.x[1] \/ (s.lis[p] # 0 /\ s.rs[s.lis[p]] = "stopping")
              /\ \E r \in {"failed", "success"} : st' = Done(t, r)
              /\ UNCHANGED s
     \/ /\ f.ph = "called" /\ f.op = "status"
        /\ st' = Done(t, IF s.lis[p] # 0 THEN "available" ELSE "unavailable") /\ UNCHANGED s
     \/ /\ f.ph = "called" /\ f.op = "rawopen"          \* at address p, to send a buffer b of size a
        /\ IF s.lis[p] # 0
           THEN /\ s' = [s EXCEPT !.raw = Put(@, f.b, [p |-> s.lis[p], size |-> f.a, sent |-> 0, is |-> "open"])]
                /\ st' = Done(t, "true")
           ELSE UNCHANGED s /\ st' = Done(t, "false")
     \/ /\ f.ph = "called" /\ f.op = "rawsend"          \* a more bytes of buffer b
        /\ LET c == Get(s.raw, f.b, [is |-> "none"]) IN
           \/ c.is = "none" /\ st' = Done(t, "false") /\ UNCHANGED s
           \/ c.is \in {"gone", "taken"} /\ st' = Done(t, "*") /\ UNCHANGED s
           \/ /\ c.is = "open" /\ s' = [s EXCEPT !.raw[f.b].sent = @ + f.a]
              /\ st' = Done(t, IF s.rs[c.p] = "stopping" THEN "*" ELSE "true")
     \/ /\ f.ph = "called" /\ f.op = "rawclose"
        /\ s' = IF Get(s.raw, f.b, [is |-> "none"]).is = "open" THEN [s EXCEPT !.raw[f.b].is = "closed"] ELSE s
        /\ st' = Done(t, "void")
  /\ UNCHANGED now

Local(t) == FALSE

\* something could be handed to the observer of p
Pending(p) == s.conn[p] # <<>> \/ \E i \in DOMAIN s.raw : s.raw[i].p = p /\ Complete(s.raw[i])
Blocked(t) ==
  LET f == Top(t) IN
  /\ InCall(t)
  /\ \/ f.ph = "running" /\ s.rs[f.p] = "run" /\ ~Pending(f.p)
     \* nobody takes anything yet
     \/ f.ph = "sending" /\ s.lis[f.p] # 0 /\ s.rs[s.lis[f.p]] \in {"initing", "init"}
     \/ f.ph = "called" /\ f.op \in {"rawopen", "rawsend", "status"} /\ s.lis[f.p] # 0 /\ s.rs[s.lis[f.p]] \in {"initing", "init"}
Quiet == \A t \in Threads : Idle(t) \/ Blocked(t)

DoBegin(t, op, p, a, b) ==
  /\ op = "got" /\ InCall(t) /\ Top(t).ph = "running" /\ Top(t).p = p
  /\ \/ \E i \in 1..Len(s.conn[p]) :
          /\ s.conn[p][i].id = a /\ s.conn[p][i].size = b
          /\ \A j \in 1..i - 1 : s.conn[p][j].by # s.conn[p][i].by    \* a sender's buffers in their order
          /\ s' = [s EXCEPT !.conn[p] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))]
     \/ \E i \in DOMAIN s.raw :
          /\ s.raw[i].p = p /\ Complete(s.raw[i]) /\ s.raw[i].size = b /\ Id(b, i) = a
          /\ s' = [s EXCEPT !.raw[i].is = "taken"]
  /\ st' = Push(t, BodyFrame(op, p, a, b))
DoEnd(t, op, p, a, b, r) ==
  /\ IsTopBody(t, op, p, a, b)
  /\ st' = EndBody(t, "running") /\ UNCHANGED s
=============================================================================
