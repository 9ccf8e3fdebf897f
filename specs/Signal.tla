------------------------------- MODULE Signal -------------------------------
(* Signals, slots and connections (maf::signal_slots).                                     *)
(* Signals: 1, 2, 6 any number of slots; 3 and 5 at most one; 4, 5 single-threaded.         *)
(* A slot has a number c and a kind (argument b of connect):                                *)
(*   0 plain (also 4 method, 7 tuple slot, 30 direct executor)              *)
(*   1 connection-aware; 2, 3, 5 tracked: not called once its object has expired            *)
(*   10+q forwards to signal q; 20+e runs on executor e; 40+e tracked and runs on e         *)
(*   6 a slot that is also held from outside (and can be disconnected by dslot)             *)
(*   50 waitable connection: the first emission after it hands the value to a waiter        *)
EXTENDS Calls

Sigs == 1..6
Single(p) == p \in {3, 5}
NoOne == -1
Execs == 1..2

\* sl: signal -> connected slots <<c, n>> in order, n increasing with every (re)connection
\* c: slot -> [p, kind, s: "on" "off" (disconnected, may reconnect) "gone" "maybe" "out" (of the
\*         list, but alive), o: who holds the
\*         connection: 0 the connection object, h > 0 scoped holder h, -1 nobody]
\* own: signal -> thread emitting it;  dead: destroyed signals;  exp: expired tracked objects
\* exq: executor -> waiting <<p, c, v>>;  fut: waitable connection -> -1 none yet, v, or "used"
\* ho: scoped holder -> set of slots
Init ==
  /\ InitCalls
  /\ s = [sl |-> [p \in Sigs |-> <<>>], c |-> <<>>, own |-> [p \in Sigs |-> NoOne],
          dead |-> {}, exp |-> {}, exq |-> [e \in Execs |-> <<>>], fut |-> <<>>, n |-> 1]

Kind(c) == s.c[c].kind
Tracked(c) == Kind(c) \in {2, 3, 5} \cup (41..42)
Forwards(c) == Kind(c) \in 11..16
ExecOf(c) == IF Kind(c) \in 21..22 THEN Kind(c) - 20 ELSE IF Kind(c) \in 41..42 THEN Kind(c) - 40 ELSE 0
Visible0(c) == ~Forwards(c) /\ ExecOf(c) = 0 /\ Kind(c) # 50
Known(c) == c \in DOMAIN s.c
Mine(c) == Known(c) /\ s.c[c].o = 0
On(c) == Known(c) /\ s.c[c].s = "on"
Looks(c) == On(c) \/ (Known(c) /\ s.c[c].s = "out")
Free(p, t) == s.own[p] \in {NoOne, t}
Drop(ss, p, c) == [ss EXCEPT !.sl[p] = SelectSeq(@, LAMBDA y : y[1] # c)]
Add(ss, p, c) == [ss EXCEPT !.sl[p] = Append(@, <<c, ss.n>>), !.n = @ + 1]

\* the next slot whose turn it is in the emission of frame f: <<>> if none
After(p, n) == SelectSeq(s.sl[p], LAMBDA y : y[2] > n)
NextIn(f) == IF Single(f.p) /\ f.x[1] > 0 THEN <<>> ELSE After(f.p, f.x[1])

\* "locked": a tracked slot is due and its object is held for the call
Emitting(f) == f.op \in {"emit", "fwd"} /\ f.ph \in {"on", "locked"}

\* a call that acts on signal p has to wait for another thread's emission of p
HeldBy(h) == {c \in DOMAIN s.c : s.c[c].o = h}
SigsOf(f) ==
  CASE f.op \in {"emit", "connect", "discall", "wconnect", "drop"} -> {f.p}
    \* (what only looks at the connection itself does not wait)
    [] f.op = "dslot" -> {f.p}
    [] f.op \in {"disc", "isconn"} -> IF Mine(f.a) /\ Looks(f.a) THEN {s.c[f.a].p} ELSE {}
    [] f.op = "reconn" -> IF Mine(f.a) /\ s.c[f.a].s \in {"off", "maybe"} THEN {s.c[f.a].p} ELSE {}
    [] f.op = "scope" /\ f.p >= 10 -> {}
    [] f.op \in {"scope", "scmove", "scdrop"} -> {s.c[c].p : c \in {d \in HeldBy(f.p) : Looks(d)}}
    [] OTHER -> {}
Waits(t) == LET f == Top(t) IN f.ph = "called" /\ \E p \in SigsOf(f) : ~Free(p, t)

\* the slot executing in thread t (the top body)
Alive(p) == p \notin s.dead
Dead(c) == (c \in s.exp /\ Tracked(c)) \/ (Forwards(c) /\ ~Alive(Kind(c) - 10))
ExpiredIn(p) == \E i \in DOMAIN s.sl[p] : Dead(s.sl[p][i][1])

LinConn(t) ==
  LET f == Top(t) IN
  \/ /\ f.op = "connect"
     /\ LET full == Single(f.p) /\ s.sl[f.p] # <<>>
            new == [p |-> f.p, kind |-> f.b, s |-> IF full THEN "gone" ELSE "on", o |-> 0]
            s1 == [s EXCEPT !.c = Put(@, f.a, new)]
        IN s' = IF full THEN s1 ELSE Add(s1, f.p, f.a)
     /\ st' = Done(t, "void")
  \/ /\ f.op = "wconnect"
     /\ LET full == Single(f.p) /\ s.sl[f.p] # <<>>
            s1 == [s EXCEPT !.c = Put(@, f.a, [p |-> f.p, kind |-> 50, s |-> IF full THEN "gone" ELSE "on", o |-> -1]),
                            !.fut = Put(@, f.a, IF full THEN -2 ELSE -1)]
        IN s' = IF full THEN s1 ELSE Add(s1, f.p, f.a)
     /\ st' = Done(t, "void")
  \/ /\ f.op = "disc"
     /\ IF Mine(f.a) /\ On(f.a) /\ Alive(s.c[f.a].p)
        THEN /\ s' = [Drop(s, s.c[f.a].p, f.a) EXCEPT !.c[f.a].s = "off"]
             /\ st' = Done(t, "true")
        ELSE UNCHANGED s /\ st' = Done(t, "false")
  \/ /\ f.op = "reconn"
     /\ IF Mine(f.a) /\ s.c[f.a].s \in {"off", "maybe"} /\ Alive(s.c[f.a].p)
        THEN IF Single(s.c[f.a].p) /\ s.sl[s.c[f.a].p] # <<>>
             THEN s' = [s EXCEPT !.c[f.a].s = "maybe"] /\ st' = Done(t, "false")
             ELSE \/ /\ s' = [Add(s, s.c[f.a].p, f.a) EXCEPT !.c[f.a].s = "on"]
                     /\ st' = Done(t, "true")
                  \/ /\ s.c[f.a].s = "maybe" /\ st' = Done(t, "false") /\ UNCHANGED s
        ELSE UNCHANGED s /\ st' = Done(t, "false")
  \/ /\ f.op = "isconn"
     /\ st' = Done(t, IF Mine(f.a) /\ On(f.a) /\ Alive(s.c[f.a].p)
                      THEN (IF Dead(f.a) THEN "*" ELSE "true")
                      ELSE "false")
     /\ UNCHANGED s
  \/ /\ f.op = "discall"
     /\ s' = [s EXCEPT !.sl[f.p] = <<>>,
                !.c = [c \in DOMAIN s.c |-> IF s.c[c].p = f.p /\ s.c[c].s = "on"
                                            THEN [s.c[c] EXCEPT !.s = IF s.c[c].kind = 6 THEN "out" ELSE "gone"]
                                            ELSE s.c[c]]]
     /\ st' = Done(t, "void")
  \/ /\ f.op = "dslot"
     /\ IF On(f.a) /\ s.c[f.a].p = f.p /\ Kind(f.a) = 6
        THEN s' = [Drop(s, f.p, f.a) EXCEPT !.c[f.a].s = "out"] /\ st' = Done(t, "true")
        ELSE UNCHANGED s /\ st' = Done(t, "false")
  \/ /\ f.op = "drop"
     /\ s' = [s EXCEPT !.sl[f.p] = <<>>, !.dead = @ \cup {f.p},
                !.c = [c \in DOMAIN s.c |-> IF s.c[c].p = f.p THEN [s.c[c] EXCEPT !.s = "gone"] ELSE s.c[c]]]
     /\ st' = Done(t, "void")
  \/ /\ f.op = "sconn"
     /\ st' = Done(t, IF ExpiredIn(f.p) THEN "*" ELSE Bool(s.sl[f.p] # <<>>)) /\ UNCHANGED s
  \/ /\ f.op = "count"
     /\ st' = Done(t, IF ExpiredIn(f.p) THEN "*" ELSE ToString(Len(s.sl[f.p]))) /\ UNCHANGED s
  \* "true": the last reference to the tracked object is dropped
  \/ /\ f.op = "expire"
     /\ \/ Known(f.a) /\ Tracked(f.a) /\ s' = [s EXCEPT !.exp = @ \cup {f.a}] /\ st' = Done(t, "true")
        \/ UNCHANGED s /\ st' = Done(t, "false")
  \/ /\ f.op = "move" /\ UNCHANGED s /\ st' = Done(t, "false")   \* the moved-from one is empty

\* ends the connection of every slot in cc (scoped connections going away)
Scope(ss, cc) ==
  [ss EXCEPT !.sl = [p \in Sigs |-> SelectSeq(ss.sl[p], LAMBDA y : y[1] \notin cc)],
             !.c = [c \in DOMAIN ss.c |-> IF c \in cc THEN [ss.c[c] EXCEPT !.s = "gone", !.o = -1]
                                          ELSE ss.c[c]]]
LinScoped(t) ==
  LET f == Top(t) IN
  \/ /\ f.op = "scope"       \* holder p takes connection a, what it held before ends
     /\ LET s1 == IF f.p >= 10 THEN s ELSE Scope(s, HeldBy(f.p)) IN      \* 10: a group, which adds
        s' = IF Mine(f.a) THEN [s1 EXCEPT !.c[f.a].o = f.p] ELSE s1
     /\ st' = Done(t, "void")
  \/ /\ f.op = "scmove"      \* holder p takes over from holder a
     /\ LET s1 == Scope(s, HeldBy(f.p)) IN
        s' = [s1 EXCEPT !.c = [c \in DOMAIN s1.c |-> IF s1.c[c].o = f.a THEN [s1.c[c] EXCEPT !.o = f.p] ELSE s1.c[c]]]
     /\ st' = Done(t, "void")
  \/ /\ f.op = "scdrop"
     /\ s' = Scope(s, HeldBy(f.p))
     /\ st' = Done(t, "void")

\* inside a connection-aware slot: its own connection (a: the slot, given by the driver)
LinSelf(t) ==
  LET f == Top(t) c == f.a IN
  \/ /\ f.op = "selfdisc"
     /\ IF On(c) THEN s' = [Drop(s, s.c[c].p, c) EXCEPT !.c[c].s = "self"] /\ st' = Done(t, "true")
        ELSE UNCHANGED s /\ st' = Done(t, "false")
  \/ /\ f.op = "selfreconn"
     /\ IF s.c[c].s = "self" /\ Alive(s.c[c].p) /\ ~(Single(s.c[c].p) /\ s.sl[s.c[c].p] # <<>>)
        THEN s' = [Add(s, s.c[c].p, c) EXCEPT !.c[c].s = "on"] /\ st' = Done(t, "true")
        ELSE UNCHANGED s /\ st' = Done(t, "false")
  \/ /\ f.op = "selfconn" /\ st' = Done(t, Bool(On(c))) /\ UNCHANGED s

\* a slot disconnected by itself is destroyed when its call ends
SelfGone(ss, c) == IF ss.c[c].s = "self" THEN [ss EXCEPT !.c[c].s = "gone"] ELSE ss

Leave(ss, f, t) == IF f.x[2] THEN [ss EXCEPT !.own[f.p] = NoOne] ELSE ss

LinEmit(t) ==
  LET f == Top(t) IN
  \/ /\ f.op = "emit" /\ f.ph = "called"
     /\ s' = [s EXCEPT !.own[f.p] = t]
     /\ st' = PhX(t, "on", <<0, s.own[f.p] # t>>)
  \/ /\ Emitting(f) /\ NextIn(f) = <<>>                     \* all have had their turn
     /\ s' = Leave(s, f, t)
     /\ st' = IF f.op = "emit" THEN Done(t, "void") ELSE Pop(t)
  \/ /\ Emitting(f) /\ NextIn(f) # <<>>
     /\ LET c == NextIn(f)[1][1]
            n == NextIn(f)[1][2]
            x2 == <<n, f.x[2]>>
            q == Kind(c) - 10
        IN \/ /\ Tracked(c) /\ c \in s.exp /\ f.ph = "on"    \* expired: dropped, not called
              /\ s' = [Drop(s, f.p, c) EXCEPT !.c[c].s = "gone"]
              /\ st' = SetTop(t, [f EXCEPT !.x = x2])
           \/ /\ Tracked(c) /\ c \notin s.exp /\ f.ph = "on" /\ s' = s
              /\ st' = SetTop(t, [f EXCEPT !.ph = "locked"])
           \/ /\ Kind(c) = 50
              /\ s' = [Drop(s, f.p, c) EXCEPT !.c[c].s = "gone", !.fut[c] = f.a]
              /\ st' = SetTop(t, [f EXCEPT !.x = x2])
           \/ /\ ExecOf(c) # 0 /\ (Tracked(c) => f.ph = "locked")
              /\ s' = [s EXCEPT !.exq[ExecOf(c)] = Append(@, <<f.p, c, f.a>>)]
              /\ st' = SetTop(t, [f EXCEPT !.x = x2, !.ph = "on"])
           \/ /\ Forwards(c) /\ ~Alive(q)
              /\ s' = [Drop(s, f.p, c) EXCEPT !.c[c].s = "gone"]
              /\ st' = SetTop(t, [f EXCEPT !.x = x2])
           \/ /\ Forwards(c) /\ Alive(q) /\ Free(q, t)
              /\ s' = [s EXCEPT !.own[q] = t]
              /\ st' = [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1) \o
                          << [f EXCEPT !.x = x2],
                             [Frame("fwd", q, f.a, 0) EXCEPT !.ph = "on", !.x = <<0, s.own[q] # t>>] >>]
  \/ /\ f.op = "fwd" /\ f.ph = "threw"                       \* a slot threw: the emission ends
     /\ s' = Leave(s, f, t)
     /\ st' = EndBody(t, "threw")
  \/ /\ f.op = "emit" /\ f.ph = "threw"
     /\ s' = Leave(s, f, t) /\ st' = Done(t, "exc")

\* executors and waiters: the slot runs inside their calls
LinOther(t) ==
  LET f == Top(t) IN
  \/ /\ f.op = "drain" /\ s.exq[f.p] = <<>> /\ st' = Done(t, "void") /\ UNCHANGED s
  \/ /\ f.op = "fwait" /\ f.ph = "called"
     /\ \/ /\ s.fut[f.a] = -2 /\ st' = Done(t, "false") /\ UNCHANGED s      \* used up
        \/ /\ s.fut[f.a] = -1 /\ s.c[f.a].s = "gone"  /\ st' = Done(t, "false")
           /\ s' = [s EXCEPT !.fut[f.a] = -2]   \* signal gone, or all its slots disconnected
        \/ /\ s.fut[f.a] = -1 /\ s.c[f.a].s # "gone" /\ f.b > 0 /\ now >= f.n + f.b
           /\ st' = Done(t, "false") /\ UNCHANGED s
  \/ /\ f.op = "fvalid" /\ st' = Done(t, Bool(s.fut[f.a] # -2)) /\ UNCHANGED s
  \/ /\ f.op = "fwait" /\ f.ph = "ran" /\ st' = Done(t, "true") /\ UNCHANGED s
  \/ /\ f.op = "fwait" /\ f.ph = "threw" /\ st' = Done(t, "exc") /\ UNCHANGED s

Lin(t) ==
  /\ InCall(t)
  /\ ~Waits(t)
  /\ \/ Top(t).ph = "called" /\ (LinConn(t) \/ LinScoped(t) \/ LinSelf(t))
     \/ LinEmit(t) \/ LinOther(t)
  /\ UNCHANGED now
Local(t) == LET f == Top(t) IN
  \/ f.op \in {"selfconn", "fvalid"} /\ f.ph = "called"
  \/ f.op = "fwait" /\ f.ph = "ran"

(* slots: visible *)
BeginOK(t, p, c, v) ==
  LET f == Top(t) IN
  \/ /\ Emitting(f) /\ f.p = p /\ f.a = v /\ NextIn(f) # <<>> /\ NextIn(f)[1][1] = c
     /\ Visible0(c) /\ (Tracked(c) => f.ph = "locked")
  \/ /\ f.op = "drain" /\ f.ph = "called" /\ s.exq[f.p] # <<>> /\ s.exq[f.p][1] = <<p, c, v>>
  \/ /\ f.op = "fwait" /\ f.ph = "called" /\ f.a = c /\ s.fut[c] = v /\ v >= 0 /\ s.c[c].p = p
DoBegin(t, op, p, c, v) ==
  /\ op = "slot" /\ InCall(t) /\ BeginOK(t, p, c, v)
  /\ LET f == Top(t)
         f2 == IF Emitting(f) THEN [f EXCEPT !.x = <<NextIn(f)[1][2], f.x[2]>>, !.ph = "on"] ELSE f
     IN /\ st' = [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1) \o <<f2, BodyFrame(op, p, c, v)>>]
        /\ s' = IF f.op = "drain" THEN [s EXCEPT !.exq[f.p] = Tail(@)]
                ELSE IF f.op = "fwait" THEN [s EXCEPT !.fut[c] = -2] ELSE s
DoEnd(t, op, p, c, v, r) ==
  /\ IsTopBody(t, op, p, c, v)
  /\ LET u == Under(t) IN
     st' = EndBody(t, IF r = "throw" THEN (IF u.op = "drain" THEN "called" ELSE "threw")
                      ELSE IF u.op = "fwait" THEN "ran" ELSE u.ph)
  /\ s' = SelfGone(s, c)

Blocked(t) ==
  LET f == Top(t) IN
  /\ InCall(t)
  /\ \/ Waits(t)
     \/ Emitting(f) /\ NextIn(f) # <<>> /\ Forwards(NextIn(f)[1][1]) /\ ~Free(Kind(NextIn(f)[1][1]) - 10, t)
     \/ f.op = "fwait" /\ f.ph = "called" /\ s.fut[f.a] = -1 /\ s.c[f.a].s # "gone"
        /\ (f.b > 0 => now < f.n + f.b)
Quiet == \A t \in Threads : Idle(t) \/ Blocked(t)
=============================================================================
