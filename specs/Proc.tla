------------------------------- MODULE Proc -------------------------------
(* Message/task processors (maf::messaging::Processor) at API level.                    *)
(* Calls, returns and task/handler begins and ends are visible; the moments at which a   *)
(* call takes effect (acceptance, closing, clearing, dequeuing, completion) are internal *)
(* steps that may fall anywhere between call and return.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Threads == 0..12
Procs == 1..3
Types == 1..3
Sigs == 1..3          \* signals 1, 2; observable 3

VARIABLES
  closed,  \* processor -> refuses work
  dead,    \* processor -> object destroyed
  q,       \* processor -> accepted, not started items, in order
  st,      \* thread -> stack of frames (calls and bodies in progress)
  inst,    \* thread -> processor whose run call set the thread's identity (0: none)
  hs,      \* completion handle -> "none" | "pending" | "ok" | "exc" | "broken"
  hd,      \* processor -> message type -> its current handler set (0: none)
  hub,     \* handler set -> connected handlers in order
  cs,      \* handler -> [hub, s]: s in "on" (connected) "off" (disconnected)
  asy,     \* processor -> state of its dedicated thread: "no" | "going" | "up" | "over"
  sg,      \* signals: sl: signal -> slots in order, each <<slot, number>>; k: slot -> what is
           \* known about it; own: signal -> thread emitting (-1: none); v: observed value
  now      \* virtual time (ms)

vars == <<closed, dead, q, st, inst, hs, hd, hub, cs, asy, sg, now>>

NoItem == [kind |-> "none", p |-> 0, a |-> 0, m |-> 0, v |-> 0, h |-> 0]
TaskItem(p, a, h) == [kind |-> "task", p |-> p, a |-> a, m |-> 0, v |-> 0, h |-> h]
SlotItem(p, c, o, v, h) == [kind |-> "slot", p |-> p, a |-> c, m |-> o, v |-> v, h |-> h]
MsgItem(p, m, v, h) == [kind |-> "msg", p |-> p, a |-> 0, m |-> m, v |-> v, h |-> h]

Frame(op, p, a, b) ==
  [op |-> op, p |-> p, a |-> a, b |-> b, ph |-> "called", res |-> "", item |-> NoItem,
   rest |-> <<>>, n |-> now, si |-> FALSE, hub |-> 0,
   o |-> 0, v |-> 0, from |-> 0, only |-> 0]

Init ==
  /\ closed = [p \in Procs |-> FALSE]
  /\ dead = [p \in Procs |-> FALSE]
  /\ q = [p \in Procs |-> <<>>]
  /\ st = [t \in Threads |-> <<>>]
  /\ inst = [t \in Threads |-> 0]
  /\ hs = <<>>
  /\ hd = [p \in Procs |-> [m \in Types |-> 0]]
  /\ hub = <<>>
  /\ cs = <<>>
  /\ asy = [p \in Procs |-> "no"]
  /\ sg = [sl |-> [o \in Sigs |-> <<>>], k |-> <<>>, own |-> [o \in Sigs |-> -1], v |-> 0, n |-> 1]
  /\ now = 0

Top(t) == st[t][Len(st[t])]
Idle(t) == st[t] = <<>>
InCall(t) == ~Idle(t) /\ Top(t).op \notin {"task", "handler", "slot", "tinit", "tdeinit"}
SetTop(t, f) == [st EXCEPT ![t][Len(st[t])] = f]
Push(s, t, f) == [s EXCEPT ![t] = Append(s[t], f)]
Pop(t) == [st EXCEPT ![t] = SubSeq(st[t], 1, Len(st[t]) - 1)]

Bool(b) == IF b THEN "true" ELSE "false"
SetH(f, h, v) == (h :> v) @@ f
H(h) == IF h \in DOMAIN hs THEN hs[h] ELSE "none"
Pending(h) == H(h) = "pending"
\* breaking the handles of discarded items
Break(items) ==
  [h \in DOMAIN hs |->
     IF \E i \in DOMAIN items : items[i].h = h THEN "broken" ELSE hs[h]]
\* handle used by a blocking call that hides it
HiddenH(t) == 1000 * (t + 1) + Len(st[t])

(* ------------------------------------------------------------------ visible steps *)
DoCall(t, op, p, a, b) ==
  /\ ~InCall(t)
  /\ st' = Push(st, t, Frame(op, p, a, b))
  /\ UNCHANGED <<closed, dead, q, inst, hs, hd, hub, cs, asy, sg>>

Matches(r, actual) == r = "*" \/ r = actual

DoRet(t, op, p, a, b, r) ==
  /\ InCall(t)
  /\ LET f == Top(t) IN
       /\ f.op = op /\ f.p = p /\ f.a = a /\ f.b = b
       /\ f.ph = "done" /\ Matches(f.res, r)
  /\ st' = Pop(t)
  /\ UNCHANGED <<closed, dead, q, inst, hs, hd, hub, cs, asy, sg>>

\* a task or handler body starts: the frame on top is executing an item
On(c) == c \in DOMAIN cs /\ cs[c].s = "on"
\* a handler set exists as long as it is the current one or being emitted to
Live(h) == \/ \E p \in Procs, m \in Types : hd[p][m] = h
           \/ \E t \in Threads : \E i \in DOMAIN st[t] : st[t][i].hub = h
(* Signals whose slots go through executors. Kinds: 0 none, 1 the processor's default executor,
   2 its asynchronous, 3 its blocking executor, 4 the direct executor.  An emission is a frame
   with the value f.v, going through the slots by their numbers; f.from is the last one passed.
   (Connecting to an observable tells that one slot only: f.only.) *)
SlotOn(c) == c \in DOMAIN sg.k /\ sg.k[c].on
SlotKind(c) == sg.k[c].kind
NextSlot(f) ==
  IF f.only # 0 THEN (IF f.from = 0 THEN f.only ELSE 0)
  ELSE LET r == SelectSeq(sg.sl[f.o], LAMBDA y : y[2] > f.from) IN IF r = <<>> THEN 0 ELSE r[1][1]
NextNo(f) ==
  IF f.only # 0 THEN 1
  ELSE SelectSeq(sg.sl[f.o], LAMBDA y : y[2] > f.from)[1][2]
Passed(f) == [f EXCEPT !.from = NextNo(f)]
DoBegin(t, op, p, a, b) ==
  /\ \/ /\ op \in {"task", "handler"}
        /\ InCall(t)
        /\ LET f == Top(t) IN
             /\ f.ph = "x"
             /\ p \in {0, f.item.p}
             /\ \/ /\ op = "task" /\ f.item.kind = "task" /\ f.item.a = a
                   /\ st' = Push(SetTop(t, [f EXCEPT !.ph = "in"]), t, Frame(op, p, a, b))
                \/ /\ op = "handler" /\ f.item.kind = "msg" /\ f.item.v = b
                   /\ \E i \in DOMAIN f.rest :
                        /\ f.rest[i] = a /\ On(a)
                        /\ \A j \in 1..(i - 1) : ~On(f.rest[j])
                        /\ st' = Push(SetTop(t, [f EXCEPT !.ph = "in",
                                          !.rest = SubSeq(f.rest, i + 1, Len(f.rest))]),
                                      t, Frame(op, p, a, b))
        /\ UNCHANGED <<inst, asy>>
     \/ /\ op = "slot"
        /\ InCall(t)
        /\ LET f == Top(t) IN
             /\ \/ f.ph = "x" /\ f.item.kind = "slot" /\ f.item.a = a /\ f.item.v = b
                   /\ st' = Push(SetTop(t, [f EXCEPT !.ph = "in"]), t, Frame(op, p, a, b))
                \/ \* directly from the emission
                   /\ f.ph = "se" /\ NextSlot(f) = a /\ a # 0 /\ SlotKind(a) \in {0, 4} /\ f.v = b
                   /\ st' = Push(SetTop(t, Passed(f)), t, Frame(op, p, a, b))
        /\ UNCHANGED <<inst, asy>>
     \/ /\ op = "tinit"     \* the dedicated thread's initialisation, on a new thread
        /\ Idle(t) /\ asy[p] = "going"
        /\ asy' = [asy EXCEPT ![p] = "up"]
        /\ inst' = [inst EXCEPT ![t] = p]
        /\ st' = [st EXCEPT ![t] = <<[Frame("arun", p, 0, 0) EXCEPT !.ph = "init", !.si = TRUE],
                                     Frame(op, p, a, b)>>]
     \/ /\ op = "tdeinit"
        /\ InCall(t) /\ Top(t).op = "arun" /\ Top(t).ph = "deinit" /\ Top(t).p = p
        /\ st' = Push(st, t, Frame(op, p, a, b))
        /\ UNCHANGED <<inst, asy>>
  /\ UNCHANGED <<closed, dead, q, hs, hd, hub, cs, sg>>

\* b of an "end" event of a task: 1 if the body throws
DoEnd(t, op, p, a, b, throws) ==
  /\ ~Idle(t)
  /\ Top(t).op = op /\ Top(t).p = p /\ Top(t).a = a /\ (op = "task" \/ Top(t).b = b)
  /\ LET n == Len(st[t])
         up == st[t][n - 1]
         up2 == CASE op = "tinit" -> [up EXCEPT !.ph = "loop"]
                  [] op = "tdeinit" -> [up EXCEPT !.ph = "over"]
                  [] op = "slot" /\ up.ph = "se" -> up
                  [] op \in {"task", "slot"} -> [up EXCEPT !.ph = "fin", !.res = IF throws THEN "exc" ELSE "ok"]
                  [] OTHER -> [up EXCEPT !.ph = "x"]
     IN st' = [st EXCEPT ![t] = Append(SubSeq(st[t], 1, n - 2), up2)]
  /\ UNCHANGED <<closed, dead, q, inst, hs, hd, hub, cs, asy, sg>>

(* ------------------------------------------------------------------ internal steps *)
RunOps == {"run", "runfor", "runonce", "arun"}
Deadline(f) == f.n + f.a
Timed(f) == f.op \in {"runfor", "runonce"}
Submits == {"exec", "execa", "texec", "texeca", "wexec", "wexecv", "exdef", "exasync",
            "exblock", "will", "willa", "willb"}
Posts == {"post", "wpost"}
Emits == {"emit", "oset", "sconn"}

\* which processor a submission addresses
Target(t, f) == IF f.op \in {"texec", "texeca", "tstop"} THEN inst[t] ELSE f.p
InlineOK(t, f) ==
  /\ f.op \in {"exec", "texec", "wexec", "wexecv", "exdef", "exblock", "will", "willb", "wpost"}
  /\ inst[t] = Target(t, f)
Waitable(f) == f.op \in {"wexec", "wexecv", "exblock", "willb", "wpost"}
BlockingSubmit(f) == f.op \in {"wexecv", "exblock", "willb"}
HandleOf(t, f) == CASE f.op = "wexec" -> f.b
                    [] f.op = "wpost" -> f.b % 100
                    [] BlockingSubmit(f) -> HiddenH(t)
                    [] OTHER -> 0
Refused(f) == CASE f.op \in {"wexec", "wpost"} -> "invalid"
                [] f.op \in {"will", "willa"} -> "void"
                [] f.op \in {"wexecv", "willb"} -> "*"   \* error or nothing: not specified
                [] f.op \in {"exdef", "exasync"} -> IF dead[f.p] THEN "false" ELSE "*"
                [] OTHER -> "false"
Accepted(f) == CASE f.op \in {"wexec", "wpost"} -> "valid"
                 [] f.op \in {"will", "willa", "willb"} -> "void"
                 [] f.op = "wexecv" -> ToString(f.a * 10)
                 [] OTHER -> "true"

HasHandler(p, m) == hd[p][m] # 0 /\ hub[hd[p][m]] # <<>>

\* a submission or post takes effect; acceptance ("is it open, is there a handler?") and
\* queueing are two moments: a stop in between discards what was accepted
ItemOf(t) ==
  LET f == Top(t) IN
  IF f.op \in Posts
  THEN MsgItem(Target(t, f), f.a, IF f.op = "post" THEN f.b ELSE f.b \div 100, HandleOf(t, f))
  ELSE TaskItem(Target(t, f), f.a, HandleOf(t, f))
LinSubmit(t) ==
  LET f == Top(t)
      p == Target(t, f)
      h == HandleOf(t, f)
      isMsg == f.op \in Posts
      item == ItemOf(t)
      ok == p # 0 /\ ~closed[p] /\ (isMsg => HasHandler(p, f.a))
      after == IF BlockingSubmit(f) THEN [f EXCEPT !.ph = "wait", !.item = item]
               ELSE [f EXCEPT !.ph = "done", !.res = Accepted(f)]
  IN /\ f.op \in (Submits \cup Posts)
     /\ \/ /\ f.ph = "called" /\ ~ok
           /\ st' = SetTop(t, [f EXCEPT !.ph = "done",
                         !.res = IF f.op \in {"texec", "texeca"} THEN "false" ELSE Refused(f)])
           /\ hs' = IF h # 0 THEN SetH(hs, h, "none") ELSE hs
           /\ UNCHANGED q
        \/ /\ f.ph = "called" /\ ok /\ InlineOK(t, f)
           /\ st' = SetTop(t, [f EXCEPT !.ph = IF isMsg THEN "m" ELSE "x", !.item = item])
           /\ hs' = IF h # 0 THEN SetH(hs, h, "pending") ELSE hs
           /\ UNCHANGED q
        \/ /\ f.ph = "called" /\ ok /\ ~InlineOK(t, f)
           /\ st' = SetTop(t, [f EXCEPT !.ph = "push"])
           /\ UNCHANGED <<q, hs>>
        \/ /\ f.ph = "push" /\ ~closed[p]
           /\ q' = [q EXCEPT ![p] = Append(@, item)]
           /\ hs' = IF h # 0 THEN SetH(hs, h, "pending") ELSE hs
           /\ st' = SetTop(t, after)
        \/ /\ f.ph = "push" /\ closed[p]                    \* discarded by a stop
           /\ hs' = IF h # 0 THEN SetH(hs, h, "broken") ELSE hs
           /\ st' = SetTop(t, after)
           /\ UNCHANGED q
     /\ UNCHANGED <<closed, dead, inst, hd, hub, cs, asy>>

\* a blocking submission's task has completed or was discarded
LinSubmitWait(t) ==
  LET f == Top(t) IN
  /\ BlockingSubmit(f) /\ f.ph = "wait" /\ ~Pending(f.item.h)
  /\ st' = SetTop(t, [f EXCEPT !.ph = "done",
                 !.res = IF H(f.item.h) = "ok" THEN Accepted(f) ELSE "*"])
  /\ UNCHANGED <<closed, dead, q, inst, hs, hd, hub, cs, asy>>

\* the item being executed is finished: its handle becomes ready
LinFin(t) ==
  LET f == Top(t)
      out == IF f.item.kind = "msg" THEN "ok" ELSE f.res
  IN /\ \/ f.ph = "fin"
        \/ f.ph = "x" /\ f.item.kind = "msg" /\ \A i \in DOMAIN f.rest : ~On(f.rest[i])
     /\ hs' = IF f.item.h # 0 THEN SetH(hs, f.item.h, out) ELSE hs
     /\ st' = SetTop(t,
          IF f.op \in Emits THEN [f EXCEPT !.ph = "se", !.item = NoItem]
          ELSE IF f.op \in {"run", "runfor", "arun"} THEN [f EXCEPT !.ph = "loop", !.item = NoItem, !.hub = 0]
          ELSE IF f.op = "runonce" THEN [f EXCEPT !.ph = "leave", !.res = "true", !.item = NoItem, !.hub = 0]
          ELSE [f EXCEPT !.ph = "done", !.res = IF out = "ok" \/ ~BlockingSubmit(f) THEN Accepted(f) ELSE "*"])
     /\ UNCHANGED <<closed, dead, q, inst, hd, hub, cs, asy>>

\* runs
LinRunEnter(t) ==
  LET f == Top(t) IN
  /\ f.op \in {"run", "runfor", "runonce"} /\ f.ph = "called"
  /\ st' = SetTop(t, [f EXCEPT !.ph = "loop", !.si = (inst[t] = 0)])
  /\ inst' = IF inst[t] = 0 THEN [inst EXCEPT ![t] = f.p] ELSE inst
  /\ UNCHANGED <<closed, dead, q, hs, hd, hub, cs, asy>>

LinRunTake(t) ==
  LET f == Top(t) IN
  /\ f.op \in RunOps /\ f.ph = "loop" /\ ~closed[f.p] /\ q[f.p] # <<>>
  /\ LET it == Head(q[f.p]) IN
       st' = SetTop(t, [f EXCEPT !.ph = "x", !.item = it, !.rest = <<>>])
  /\ st'[t][Len(st[t])].item.kind # "msg"
  /\ q' = [q EXCEPT ![f.p] = Tail(@)]
  /\ UNCHANGED <<closed, dead, inst, hs, hd, hub, cs, asy>>

\* a message is taken, a moment later its handler set is determined, then it is emitted
LinRunTakeMsg(t) ==
  LET f == Top(t) IN
  /\ f.op \in RunOps
  /\ f.ph = "loop" /\ ~closed[f.p] /\ q[f.p] # <<>> /\ Head(q[f.p]).kind = "msg"
  /\ st' = SetTop(t, [f EXCEPT !.ph = "m", !.item = Head(q[f.p])])
  /\ q' = [q EXCEPT ![f.p] = Tail(@)]
  /\ UNCHANGED <<closed, dead, inst, hs, hd, hub, cs, asy>>

LinEmit(t) ==
  LET f == Top(t) IN
  /\ \/ /\ f.ph = "m"
        /\ st' = SetTop(t, [f EXCEPT !.ph = "mh", !.hub = hd[f.item.p][f.item.m]])
     \/ /\ f.ph = "mh"
        /\ st' = SetTop(t, [f EXCEPT !.ph = "x",
                              !.rest = IF f.hub = 0 THEN <<>> ELSE hub[f.hub]])
  /\ UNCHANGED <<closed, dead, q, inst, hs, hd, hub, cs, asy>>

LinRunLeave(t) ==
  LET f == Top(t) IN
  /\ f.op \in RunOps /\ f.ph = "loop"
  /\ closed[f.p] \/ (Timed(f) /\ now >= Deadline(f))
  /\ st' = SetTop(t, [f EXCEPT !.ph = "leave",
                    !.res = IF f.op = "runonce" THEN "false" ELSE "void"])
  /\ UNCHANGED <<closed, dead, q, inst, hs, hd, hub, cs, asy>>

LinRunExit(t) ==
  LET f == Top(t) IN
  /\ f.op \in RunOps
  /\ \/ /\ f.ph = "leave"
        /\ st' = SetTop(t, [f EXCEPT !.ph = IF f.op = "arun" THEN "deinit" ELSE "done"])
        /\ inst' = IF f.op # "arun" /\ f.si THEN [inst EXCEPT ![t] = 0] ELSE inst
        /\ UNCHANGED asy
     \/ /\ f.ph = "over"        \* dedicated thread: gone
        /\ st' = Pop(t)
        /\ inst' = [inst EXCEPT ![t] = 0]
        /\ asy' = [asy EXCEPT ![f.p] = "over"]
  /\ UNCHANGED <<closed, dead, q, hs, hd, hub, cs>>

\* stop: close, then discard what is pending
LinStop(t) ==
  LET f == Top(t)
      p == IF f.op = "tstop" THEN inst[t] ELSE f.p
      fin == IF f.op = "tstop" THEN "true" ELSE "void"
  IN /\ f.op \in {"stop", "tstop", "stopwait"}
     /\ \/ /\ f.ph = "called" /\ f.op # "stopwait"
           /\ IF p = 0 THEN st' = SetTop(t, [f EXCEPT !.ph = "done", !.res = "false"]) /\ UNCHANGED closed
              ELSE IF closed[p] THEN st' = SetTop(t, [f EXCEPT !.ph = "done", !.res = fin]) /\ UNCHANGED closed
              ELSE /\ closed' = [closed EXCEPT ![p] = TRUE]
                   /\ st' = SetTop(t, [f EXCEPT !.ph = "closing"])
           /\ UNCHANGED <<q, hs, asy>>
        \/ /\ f.ph = "called" /\ f.op = "stopwait"
           /\ IF asy[p] = "no"
              THEN st' = SetTop(t, [f EXCEPT !.ph = "done", !.res = "void"]) /\ UNCHANGED closed
              ELSE IF closed[p]
              THEN st' = SetTop(t, [f EXCEPT !.ph = "join"]) /\ UNCHANGED closed
              ELSE /\ closed' = [closed EXCEPT ![p] = TRUE]
                   /\ st' = SetTop(t, [f EXCEPT !.ph = "closing"])
           /\ UNCHANGED <<q, hs, asy>>
        \/ /\ f.ph = "closing"
           /\ hs' = Break(q[p])
           /\ q' = [q EXCEPT ![p] = <<>>]
           /\ st' = SetTop(t, IF f.op = "stopwait" THEN [f EXCEPT !.ph = "join"]
                              ELSE [f EXCEPT !.ph = "done", !.res = fin])
           /\ UNCHANGED <<closed, asy>>
        \/ /\ f.ph = "join" /\ asy[p] = "over"
           /\ asy' = [asy EXCEPT ![p] = "no"]
           /\ st' = SetTop(t, [f EXCEPT !.ph = "done", !.res = "void"])
           /\ UNCHANGED <<closed, q, hs>>
     /\ UNCHANGED <<dead, inst, hd, hub, cs>>

LinDrop(t) ==
  LET f == Top(t) IN
  /\ f.op = "drop" /\ f.ph = "called"
  /\ closed' = [closed EXCEPT ![f.p] = TRUE]
  /\ dead' = [dead EXCEPT ![f.p] = TRUE]
  /\ hs' = Break(q[f.p])
  /\ q' = [q EXCEPT ![f.p] = <<>>]
  /\ st' = SetTop(t, [f EXCEPT !.ph = "done", !.res = "void"])
  /\ UNCHANGED <<inst, hd, hub, cs, asy>>

\* waiting on a handle; getting it uses it up
LinWait(t) ==
  LET f == Top(t) IN
  /\ f.op = "wait" /\ f.ph = "called" /\ ~Pending(f.a)
  /\ st' = SetTop(t, [f EXCEPT !.ph = "done",
                 !.res = IF H(f.a) = "none" THEN "invalid" ELSE H(f.a)])
  /\ hs' = SetH(hs, f.a, "none")
  /\ UNCHANGED <<closed, dead, q, inst, hd, hub, cs, asy>>

LinWaitFor(t) ==
  LET f == Top(t) IN
  /\ f.op = "waitfor" /\ f.ph = "called"
  /\ \/ H(f.a) = "none" /\ st' = SetTop(t, [f EXCEPT !.ph = "done", !.res = "invalid"])
     \/ H(f.a) \in {"ok", "exc", "broken"}
        /\ st' = SetTop(t, [f EXCEPT !.ph = "done", !.res = "ready"])
     \/ Pending(f.a) /\ now >= f.n + f.b
        /\ st' = SetTop(t, [f EXCEPT !.ph = "done", !.res = "timeout"])
  /\ UNCHANGED <<closed, dead, q, inst, hs, hd, hub, cs, asy>>

Without(s, c) == SelectSeq(s, LAMBDA x : x # c)

\* queries and small operations with one effect
LinSimple(t) ==
  LET f == Top(t)
      done(r) == SetTop(t, [f EXCEPT !.ph = "done", !.res = r])
  IN /\ f.ph = "called"
     /\ \/ /\ f.op = "reuse"
           /\ closed' = [closed EXCEPT ![f.p] = FALSE] /\ st' = done("void")
           /\ UNCHANGED <<hd, hub, cs, asy>>
        \/ /\ f.op = "stopped" /\ st' = done(Bool(closed[f.p]))
           /\ UNCHANGED <<closed, hd, hub, cs, asy>>
        \/ /\ f.op = "pending" /\ st' = done(ToString(Len(q[f.p])))
           /\ UNCHANGED <<closed, hd, hub, cs, asy>>
        \/ /\ f.op = "me" /\ st' = done(ToString(inst[t]))
           /\ UNCHANGED <<closed, hd, hub, cs, asy>>
        \/ /\ f.op = "connect"
           /\ LET old == hd[f.p][f.a]
                  h == IF old = 0 THEN Len(hub) + 1 ELSE old
              IN /\ hd' = [hd EXCEPT ![f.p][f.a] = h]
                 /\ hub' = IF old = 0 THEN Append(hub, <<f.b>>) ELSE [hub EXCEPT ![h] = Append(@, f.b)]
                 /\ cs' = (f.b :> [hub |-> h, s |-> "on"]) @@ cs
           /\ st' = done("void") /\ UNCHANGED <<closed, asy>>
        \/ /\ f.op = "disc"
           /\ IF On(f.a)
              THEN /\ hub' = [hub EXCEPT ![cs[f.a].hub] = Without(@, f.a)]
                   /\ cs' = [cs EXCEPT ![f.a].s = "off"]
              ELSE UNCHANGED <<hub, cs>>
           /\ st' = done("void") /\ UNCHANGED <<closed, hd, asy>>
        \/ /\ f.op = "reconn"
           /\ IF f.a \in DOMAIN cs /\ cs[f.a].s = "off"
                 /\ (Live(cs[f.a].hub) \/ \E u \in Threads \ {t} : InCall(u))
              THEN /\ hub' = [hub EXCEPT ![cs[f.a].hub] = Append(@, f.a)]
                   /\ cs' = [cs EXCEPT ![f.a].s = "on"]
              ELSE UNCHANGED <<hub, cs>>
           /\ st' = done("void") /\ UNCHANGED <<closed, hd, asy>>
        \/ /\ f.op = "isconn" /\ st' = done(
               \* a set given up goes away when its last user is done with it
               IF On(f.a) /\ ~Live(cs[f.a].hub) /\ \E u \in Threads \ {t} : InCall(u)
               THEN "*" ELSE Bool(On(f.a) /\ Live(cs[f.a].hub)))
           /\ UNCHANGED <<closed, hd, hub, cs, asy>>
        \/ /\ f.op = "discall"
           \* the set of this type is given up; so may be those without any handler
           /\ \E clean \in {{}, {m \in Types : hd[f.p][m] # 0 /\ hub[hd[f.p][m]] = <<>>}} :
                hd' = [hd EXCEPT ![f.p] = [m \in Types |-> IF m = f.a \/ m \in clean THEN 0 ELSE hd[f.p][m]]]
           /\ st' = done("void") /\ UNCHANGED <<closed, hub, cs, asy>>
        \/ /\ f.op = "connected" /\ st' = done(Bool(HasHandler(f.p, f.a)))
           /\ UNCHANGED <<closed, hd, hub, cs, asy>>
        \/ /\ f.op = "launch"
           /\ asy' = IF asy[f.p] = "no" THEN [asy EXCEPT ![f.p] = "going"] ELSE asy
           /\ st' = done("void") /\ UNCHANGED <<closed, hd, hub, cs>>
     /\ UNCHANGED <<dead, q, inst, hs>>

\* emissions: each slot's turn comes when the one before it has been passed (and, for a blocking
\* executor, has finished)
SigFree(o, t) == sg.own[o] \in {-1, t}
EmitStart(t, f, o, v, only, sg2) ==
  /\ st' = SetTop(t, [f EXCEPT !.ph = "se", !.o = o, !.v = v, !.only = only, !.si = (sg.own[o] # t)])
  /\ sg' = [sg2 EXCEPT !.own[o] = t]
SlotProc(c) == sg.k[c].p
LinSig(t) ==
  LET f == Top(t)
      done(r) == SetTop(t, [f EXCEPT !.ph = "done", !.res = r])
      c == NextSlot(f)
      it == SlotItem(SlotProc(c), c, f.o, f.v, IF SlotKind(c) = 3 THEN HiddenH(t) ELSE 0)
  IN
  \/ /\ f.op = "emit" /\ f.ph = "called" /\ SigFree(f.a, t)
     /\ EmitStart(t, f, f.a, f.b, 0, sg) /\ UNCHANGED <<q, hs>>
  \/ /\ f.op = "oset" /\ f.ph = "called" /\ SigFree(3, t)
     /\ IF sg.v = f.b THEN st' = done("void") /\ UNCHANGED sg
        ELSE EmitStart(t, f, 3, f.b, 0, [sg EXCEPT !.v = f.b])
     /\ UNCHANGED <<q, hs>>
  \/ /\ f.op = "sconn" /\ f.ph = "called" /\ SigFree(f.b % 10, t)
     /\ LET o == f.b % 10 IN
        /\ sg' = [sg EXCEPT !.sl[o] = Append(@, <<f.a, sg.n>>), !.n = @ + 1,
                            !.k = (f.a :> [kind |-> f.b \div 10, p |-> f.p, o |-> o, on |-> TRUE]) @@ @]
        /\ st' = IF o = 3 THEN SetTop(t, [f EXCEPT !.ph = "tell"]) ELSE done("void")
     /\ UNCHANGED <<q, hs>>
  \/ /\ f.op = "sconn" /\ f.ph = "tell" /\ SigFree(3, t)
     /\ \/ EmitStart(t, f, 3, sg.v, f.a, sg)
        \/ ~SlotOn(f.a) /\ st' = done("void") /\ UNCHANGED sg
     /\ UNCHANGED <<q, hs>>
  \/ /\ f.op = "sdisc" /\ f.ph = "called" /\ (SlotOn(f.a) => SigFree(sg.k[f.a].o, t))
     /\ st' = done(Bool(SlotOn(f.a)))
     /\ sg' = IF ~SlotOn(f.a) THEN sg
              ELSE [sg EXCEPT !.k[f.a].on = FALSE,
                              !.sl[sg.k[f.a].o] = SelectSeq(@, LAMBDA y : y[1] # f.a)]
     /\ UNCHANGED <<q, hs>>
  \/ /\ f.op \in Emits /\ f.ph = "se" /\ c = 0
     /\ st' = done("void")
     /\ sg' = IF f.si THEN [sg EXCEPT !.own[f.o] = -1] ELSE sg
     /\ UNCHANGED <<q, hs>>
  \/ /\ f.op \in Emits /\ f.ph = "se" /\ c # 0 /\ SlotKind(c) \in {1, 2, 3}
     /\ \/ closed[it.p] /\ st' = SetTop(t, Passed(f)) /\ UNCHANGED hs
        \/ /\ ~closed[it.p] /\ inst[t] = it.p /\ SlotKind(c) # 2
           /\ st' = SetTop(t, [Passed(f) EXCEPT !.ph = "x", !.item = it])
           /\ hs' = IF it.h # 0 THEN SetH(hs, it.h, "pending") ELSE hs
        \/ /\ ~closed[it.p] /\ ~(inst[t] = it.p /\ SlotKind(c) # 2)
           /\ st' = SetTop(t, [Passed(f) EXCEPT !.ph = "push", !.item = it]) /\ UNCHANGED hs
     /\ UNCHANGED <<q, sg>>
  \/ /\ f.op \in Emits /\ f.ph = "push"
     /\ st' = SetTop(t, [f EXCEPT !.ph = IF f.item.h # 0 THEN "swait" ELSE "se"])
     /\ q' = IF closed[f.item.p] THEN q ELSE [q EXCEPT ![f.item.p] = Append(@, f.item)]
     /\ hs' = IF f.item.h = 0 THEN hs
              ELSE SetH(hs, f.item.h, IF closed[f.item.p] THEN "broken" ELSE "pending")
     /\ UNCHANGED sg
  \/ /\ f.op \in Emits /\ f.ph = "swait" /\ ~Pending(f.item.h)
     /\ st' = SetTop(t, [f EXCEPT !.ph = "se", !.item = NoItem]) /\ UNCHANGED <<q, hs, sg>>

Lin(t) ==
  /\ InCall(t)
  /\ \/ /\ \/ LinSubmit(t) \/ LinSubmitWait(t) \/ LinFin(t) \/ LinRunEnter(t)
           \/ LinRunTake(t) \/ LinRunTakeMsg(t) \/ LinEmit(t) \/ LinRunLeave(t) \/ LinRunExit(t)
           \/ LinStop(t) \/ LinDrop(t) \/ LinWait(t) \/ LinWaitFor(t) \/ LinSimple(t)
        /\ UNCHANGED sg
     \/ LinSig(t) /\ UNCHANGED <<closed, dead, inst, hd, hub, cs, asy>>
  /\ UNCHANGED now

(* A thread that shows no further event must be inside a call that cannot proceed.       *)
Blocked(t) ==
  LET f == Top(t) IN
  /\ InCall(t)
  /\ \/ f.op \in RunOps /\ f.ph = "loop" /\ ~closed[f.p] /\ q[f.p] = <<>>
        /\ (Timed(f) => now < Deadline(f))
     \/ BlockingSubmit(f) /\ f.ph = "wait" /\ Pending(f.item.h)
     \/ f.op = "wait" /\ f.ph = "called" /\ Pending(f.a)
     \/ f.op = "waitfor" /\ f.ph = "called" /\ Pending(f.a) /\ now < f.n + f.b
     \/ f.op = "stopwait" /\ f.ph = "join" /\ asy[f.p] # "over"
     \/ f.op \in Emits /\ f.ph = "swait" /\ Pending(f.item.h)
     \/ f.op = "emit" /\ f.ph = "called" /\ ~SigFree(f.a, t)
     \/ f.op = "oset" /\ f.ph = "called" /\ ~SigFree(3, t)
     \/ f.op = "sconn" /\ f.ph = "called" /\ ~SigFree(f.b % 10, t)
     \/ f.op = "sconn" /\ f.ph = "tell" /\ ~SigFree(3, t)
     \/ f.op = "sdisc" /\ f.ph = "called" /\ SlotOn(f.a) /\ ~SigFree(sg.k[f.a].o, t)

Quiet == /\ \A t \in Threads : Idle(t) \/ Blocked(t)
         /\ \A p \in Procs : asy[p] # "going"
=============================================================================
