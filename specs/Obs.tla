-------------------------------- MODULE Obs --------------------------------
(* Observables (maf::signal_slots::Observable and its relatives).                          *)
(* Objects: 1, 4 one part; 2 two parts; 5 one part, at most one observer; 6 one part and   *)
(* 7 two parts, single-threaded; 3 joins 1 and 4, 10 joins 1 and 4 through executor 1;     *)
(* 8 joins 6 and 9 (single-threaded).  A value is x or 100 * x + y.                         *)
(* Observers have a number c and a kind: 0 plain, 1 connection-aware, 2 tracked,           *)
(* 20 + e on executor e, 50 waitable; 60 + i is part i of a join (object c - 200).         *)
EXTENDS Calls

Objs == 1..10
NoOne == -1
Execs == 1..2
Two(p) == p \in {2, 3, 7, 8, 10}
Single(p) == p = 5
PartsOf(j) == CASE j = 3 -> <<1, 4>> [] j = 10 -> <<1, 4>> [] j = 8 -> <<6, 9>>

Init ==
  /\ InitCalls
  /\ s = [v |-> [p \in Objs |-> IF Two(p) THEN <<0, 0>> ELSE <<0>>],
          sl |-> [p \in Objs |-> <<>>], c |-> <<>>, own |-> [p \in Objs |-> NoOne],
          exp |-> {}, exq |-> [e \in Execs |-> <<>>], fut |-> <<>>, n |-> 1]

Enc(v) == IF Len(v) = 1 THEN v[1] ELSE 100 * v[1] + v[2]
Dec(p, x) == IF Two(p) THEN <<x \div 100, x % 100>> ELSE <<x>>
Kind(c) == s.c[c].kind
ExecOf(c) == IF Kind(c) \in 21..22 THEN Kind(c) - 20 ELSE IF c = 210 THEN 1 ELSE 0
Joins(c) == Kind(c) \in 61..62
Visible0(c) == Kind(c) \in {0, 1, 2, 7}
Known(c) == c \in DOMAIN s.c
On(c) == Known(c) /\ s.c[c].s = "on"
\* the connection has been returned to whoever made it
Held(c) == \A t \in Threads : \A i \in DOMAIN st[t] : ~(st[t][i].op = "connect" /\ st[t][i].a = c)
HOn(c) == On(c) /\ Held(c)
Free(p, t) == s.own[p] \in {NoOne, t}
Drop(ss, p, c) == [ss EXCEPT !.sl[p] = SelectSeq(@, LAMBDA y : y[1] # c)]
Add(ss, p, c) == [ss EXCEPT !.sl[p] = Append(@, <<c, ss.n>>), !.n = @ + 1]
After(p, n) == SelectSeq(s.sl[p], LAMBDA y : y[2] > n)

\* an emission under way; "locked": the next observer is tracked and its object is held
Emitting(f) == f.ph \in {"on", "locked"}
NextIn(f) == IF Single(f.p) /\ f.x[1] > 0 THEN <<>> ELSE After(f.p, f.x[1])
Expired(c) == Kind(c) = 2 /\ c \in s.exp

Sets == {"set", "setrev", "assign", "mut", "mut2", "add", "inc", "setpart", "mutpart"}
Silents == {"silent", "silentpart"}
Reads == {"get", "imm", "getpart"}
\* the value a modifying call leaves
Upd(v, i, x) == [v EXCEPT ![i] = x]
NewVal(f) ==
  CASE f.op \in {"set", "setrev", "assign", "mut", "silent"} -> Dec(f.p, f.a)
    [] f.op = "mut2" -> Dec(f.p, f.b)
    [] f.op = "add" -> <<s.v[f.p][1] + f.a>>
    [] f.op = "inc" -> <<s.v[f.p][1] + 1>>
    [] f.op \in {"setpart", "mutpart", "silentpart"} -> Upd(s.v[f.p], f.a, f.b)
Result(f) == IF f.op \in {"add", "inc"} THEN ToString(NewVal(f)[1]) ELSE "void"

Alone(f) == CASE f.op \in {"disc", "isconn"} -> IF HOn(f.a) THEN {s.c[f.a].p} ELSE {}
              [] f.op = "reconn" -> IF Known(f.a) /\ Held(f.a) /\ s.c[f.a].s \in {"off", "maybe"} THEN {s.c[f.a].p} ELSE {}
              [] f.op \in Sets \cup Silents \cup Reads \cup {"connect", "sconnect", "wconnect"} -> {f.p}
              [] f.op = "join" -> {PartsOf(f.p)[1]}
              [] OTHER -> {}
Waits(t) == LET f == Top(t) IN
  \/ f.ph = "called" /\ \E p \in Alone(f) : ~Free(p, t)
  \/ f.ph = "replay" /\ ~Free(f.p, t)
  \/ f.ph \in {"jset", "jadd2", "jset2"} /\ (\E p \in {PartsOf(f.p)[IF f.ph = "jset" THEN 1 ELSE 2], f.p} : ~Free(p, t))

New(p, kind, on) == [p |-> p, kind |-> kind, s |-> IF on THEN "on" ELSE "gone"]
LinConn(t) ==
  LET f == Top(t) p == f.p c == f.a full == Single(p) /\ s.sl[p] # <<>> IN
  \/ /\ f.op \in {"connect", "sconnect"} /\ f.ph = "called"
     /\ LET s1 == [s EXCEPT !.c = Put(@, c, New(p, f.b, ~full))] IN
        s' = IF full THEN s1 ELSE Add(s1, p, c)
     /\ st' = IF f.op = "sconnect" THEN Done(t, "void") ELSE Ph(t, "replay")
  \* the current value, if it has not been disconnected meanwhile
  \/ /\ f.op = "connect" /\ f.ph = "replay"
     /\ \/ /\ s.c[c].s # "on"      \* (it may be told all the same)
           /\ st' = Done(t, "void") /\ UNCHANGED s
        \/ /\ Kind(c) = 2 /\ c \in s.exp
           /\ s' = [Drop(s, p, c) EXCEPT !.c[c].s = "gone"] /\ st' = Done(t, "void")
        \/ /\ ExecOf(c) # 0
           /\ s' = [s EXCEPT !.exq[ExecOf(c)] = Append(@, <<p, c, Enc(s.v[p]), 0>>)]
           /\ st' = Done(t, "void")
        \/ /\ Visible0(c) /\ ~Expired(c)
           /\ s' = [s EXCEPT !.own[p] = t]
           /\ st' = PhX(t, "told", <<Enc(s.v[p]), s.own[p] # t>>)
  \/ /\ f.op = "connect" /\ f.ph = "heard"
     /\ s' = IF f.x[2] THEN [s EXCEPT !.own[p] = NoOne] ELSE s
     /\ st' = Done(t, "void")
  \/ /\ f.op = "wconnect" /\ f.ph = "called"
     /\ LET s1 == [s EXCEPT !.c = Put(@, c, New(p, 50, ~full)), !.fut = Put(@, c, IF full THEN -2 ELSE -1)]
        IN s' = IF full THEN s1 ELSE Add(s1, p, c)
     /\ st' = Done(t, "void")
  \/ /\ f.op = "disc" /\ f.ph = "called"
     /\ IF HOn(c) THEN s' = [Drop(s, s.c[c].p, c) EXCEPT !.c[c].s = "off"] /\ st' = Done(t, "true")
        ELSE UNCHANGED s /\ st' = Done(t, "false")
  \/ /\ f.op = "reconn" /\ f.ph = "called"
     /\ IF Known(c) /\ Held(c) /\ s.c[c].s \in {"off", "maybe"}
        THEN IF Single(s.c[c].p) /\ s.sl[s.c[c].p] # <<>>
             THEN s' = [s EXCEPT !.c[c].s = "maybe"] /\ st' = Done(t, "false")
             ELSE \/ s' = [Add(s, s.c[c].p, c) EXCEPT !.c[c].s = "on"] /\ st' = Done(t, "true")
                  \/ s.c[c].s = "maybe" /\ st' = Done(t, "false") /\ UNCHANGED s
        ELSE UNCHANGED s /\ st' = Done(t, "false")
  \/ /\ f.op = "isconn" /\ f.ph = "called"
     /\ st' = Done(t, IF HOn(c) THEN (IF Expired(c) THEN "*" ELSE "true") ELSE "false") /\ UNCHANGED s
  \/ /\ f.op = "count" /\ f.ph = "called" /\ UNCHANGED s
     /\ st' = Done(t, IF \E i \in DOMAIN s.sl[p] : Expired(s.sl[p][i][1]) THEN "*" ELSE ToString(Len(s.sl[p])))
  \/ /\ f.op = "expire" /\ f.ph = "called"
     /\ \/ Known(c) /\ Kind(c) = 2 /\ s' = [s EXCEPT !.exp = @ \cup {c}] /\ st' = Done(t, "true")
        \/ UNCHANGED s /\ st' = Done(t, "false")
  \/ /\ f.op = "selfdisc" /\ f.ph = "called"
     /\ IF On(c) THEN s' = [Drop(s, s.c[c].p, c) EXCEPT !.c[c].s = "gone"] /\ st' = Done(t, "true")
        ELSE UNCHANGED s /\ st' = Done(t, "false")

\* joining: connects to part 1, is told its value, then to part 2
LinJoin(t) ==
  LET f == Top(t) j == f.p c == 200 + j
      i == IF f.ph \in {"called", "jset"} THEN 1 ELSE 2
      q == PartsOf(j)[i]
  IN /\ f.op = "join"
     /\ \/ /\ f.ph \in {"called", "jadd2"}
           /\ s' = Add([s EXCEPT !.c = Put(@, c + 10 * (i - 1), New(q, 60 + i, TRUE)),
                                 !.v[j] = IF j = 10 THEN Upd(@, i, s.v[q][1]) ELSE @],
                       q, c + 10 * (i - 1))
           /\ st' = Ph(t, IF i = 1 THEN "jset" ELSE "jset2")
        \/ /\ f.ph \in {"jset", "jset2"}
           /\ s' = IF j = 10 THEN [s EXCEPT !.exq[1] = Append(@, <<j, i, s.v[q][1], 1>>)]
                   ELSE [s EXCEPT !.v[j] = Upd(@, i, s.v[q][1])]
           /\ st' = IF i = 1 THEN Ph(t, "jadd2") ELSE Done(t, "void")

Leave(ss, f) == IF f.x[2] THEN [ss EXCEPT !.own[f.p] = NoOne] ELSE ss
\* the join fed by internal observer c
JoinOf(c) == IF c >= 218 THEN c - 210 ELSE IF c = 213 THEN 3 ELSE c - 200
LinSet(t) ==
  LET f == Top(t) p == f.p IN
  \/ /\ f.op \in Sets /\ f.ph = "called"
     /\ IF NewVal(f) = s.v[p] THEN st' = Done(t, Result(f)) /\ UNCHANGED s
        ELSE /\ s' = [s EXCEPT !.v[p] = NewVal(f), !.own[p] = t]
             /\ st' = SetTop(t, [f EXCEPT !.ph = "on", !.x = <<0, s.own[p] # t>>, !.res = Result(f)])
  \/ /\ f.op \in Silents /\ f.ph = "called"
     /\ s' = [s EXCEPT !.v[p] = NewVal(f)] /\ st' = Done(t, "void")
  \/ /\ f.op \in {"get", "imm"} /\ f.ph = "called" /\ st' = Done(t, ToString(Enc(s.v[p]))) /\ UNCHANGED s
  \/ /\ f.op = "getpart" /\ f.ph = "called" /\ st' = Done(t, ToString(s.v[p][f.a])) /\ UNCHANGED s
  \/ /\ Emitting(f) /\ NextIn(f) = <<>>
     /\ s' = Leave(s, f)
     /\ st' = IF f.op = "fwd" THEN Pop(t) ELSE Done(t, f.res)
  \/ /\ Emitting(f) /\ NextIn(f) # <<>>
     /\ LET c == NextIn(f)[1][1]
            n == NextIn(f)[1][2]
            x2 == <<n, f.x[2]>>
            go == SetTop(t, [f EXCEPT !.x = x2, !.ph = "on"])
            j == JoinOf(c)
            i == Kind(c) - 60
        IN \/ /\ Kind(c) = 2 /\ f.ph = "on"
              /\ IF c \in s.exp THEN s' = [Drop(s, p, c) EXCEPT !.c[c].s = "gone"] /\ st' = go
                 ELSE st' = SetTop(t, [f EXCEPT !.ph = "locked"]) /\ UNCHANGED s
           \/ /\ Kind(c) = 50
              /\ s' = [Drop(s, p, c) EXCEPT !.c[c].s = "gone", !.fut[c] = Enc(s.v[p])] /\ st' = go
           \/ /\ Kind(c) \in 21..22
              /\ s' = [s EXCEPT !.exq[ExecOf(c)] = Append(@, <<p, c, Enc(s.v[p]), 0>>)] /\ st' = go
           \/ /\ Joins(c) /\ j = 10
              /\ s' = [s EXCEPT !.exq[1] = Append(@, <<j, i, s.v[p][1], 1>>)] /\ st' = go
           \/ /\ Joins(c) /\ j # 10 /\ Free(j, t)
              /\ IF s.v[j][i] = s.v[p][1] THEN st' = go /\ UNCHANGED s
                 ELSE /\ s' = [s EXCEPT !.v[j] = Upd(@, i, s.v[p][1]), !.own[j] = t]
                      /\ st' = [go EXCEPT ![t] = Append(@, [Frame("fwd", j, 0, 0) EXCEPT !.ph = "on", !.x = <<0, s.own[j] # t>>])]
  \/ /\ f.op = "fwait" /\ f.ph = "threw" /\ st' = Done(t, "exc") /\ UNCHANGED s
  \/ /\ f.op # "fwait" /\ f.ph = "threw" /\ s' = Leave(s, f)
     /\ st' = IF f.op = "fwd" THEN EndBody(t, IF Under(t).op = "drain" THEN "called" ELSE "threw")
              ELSE Done(t, "exc")

LinOther(t) ==
  LET f == Top(t) q == s.exq[f.p] IN
  \/ /\ f.op = "drain" /\ f.ph = "called" /\ q = <<>> /\ st' = Done(t, "void") /\ UNCHANGED s
  \* the join is told through the executor
  \/ /\ f.op = "drain" /\ f.ph = "called" /\ q # <<>>
     /\ LET e == q[1] j == e[1] IN
        /\ e[4] = 1 /\ Free(j, t)
        /\ LET s1 == [s EXCEPT !.exq[f.p] = Tail(@)] IN
           IF s.v[j][e[2]] = e[3] THEN s' = s1 /\ UNCHANGED st
           ELSE /\ s' = [s1 EXCEPT !.v[j] = Upd(@, e[2], e[3]), !.own[j] = t]
                /\ st' = Push(t, [Frame("fwd", j, 0, 0) EXCEPT !.ph = "on", !.x = <<0, s.own[j] # t>>])
  \/ /\ f.op = "fwait" /\ f.ph = "called"
     /\ \/ s.fut[f.a] = -2 /\ st' = Done(t, "false") /\ UNCHANGED s
        \/ s.fut[f.a] = -1 /\ f.b > 0 /\ now >= f.n + f.b /\ st' = Done(t, "false") /\ UNCHANGED s
  \/ /\ f.op = "fwait" /\ f.ph = "ran" /\ st' = Done(t, "true") /\ UNCHANGED s

Lin(t) ==
  /\ InCall(t) /\ ~Waits(t)
  /\ (LinConn(t) \/ LinJoin(t) \/ LinSet(t) \/ LinOther(t))
  /\ UNCHANGED now
Local(t) == Top(t).op = "fwait" /\ Top(t).ph = "ran"

BeginOK(t, p, c, v) ==
  LET f == Top(t) IN
  \/ /\ Emitting(f) /\ f.p = p /\ v = Enc(s.v[p]) /\ NextIn(f) # <<>> /\ NextIn(f)[1][1] = c
     /\ Visible0(c) /\ (Kind(c) = 2 => f.ph = "locked")
  \/ /\ f.op = "connect" /\ f.ph = "told" /\ f.p = p /\ f.a = c /\ v = f.x[1]
  \/ /\ f.op = "drain" /\ f.ph = "called" /\ s.exq[f.p] # <<>> /\ s.exq[f.p][1] = <<p, c, v, 0>>
  \/ /\ f.op = "fwait" /\ f.ph = "called" /\ f.a = c /\ s.fut[c] = v /\ v >= 0 /\ s.c[c].p = p
DoBegin(t, op, p, c, v) ==
  /\ op = "slot" /\ InCall(t) /\ BeginOK(t, p, c, v)
  /\ LET f == Top(t)
         f2 == IF Emitting(f) THEN [f EXCEPT !.x = <<NextIn(f)[1][2], f.x[2]>>, !.ph = "on"] ELSE f
     IN /\ st' = [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1) \o <<f2, BodyFrame(op, p, c, v)>>]
        /\ s' = IF f.op = "drain" THEN [s EXCEPT !.exq[f.p] = Tail(@)]
                ELSE IF f.op = "fwait" THEN [s EXCEPT !.fut[c] = -2] ELSE s
DoEnd(t, op, p, c, v, r) ==
  /\ IsTopBody(t, op, p, c, v)
  /\ LET u == Under(t) IN
     st' = EndBody(t, IF r = "throw" THEN (IF u.op = "drain" THEN "called" ELSE "threw")
                      ELSE IF u.op = "fwait" THEN "ran"
                      ELSE IF u.ph = "told" THEN "heard" ELSE u.ph)
  /\ UNCHANGED s

Blocked(t) ==
  LET f == Top(t) IN
  /\ InCall(t)
  /\ \/ Waits(t)
     \/ Emitting(f) /\ NextIn(f) # <<>> /\ Joins(NextIn(f)[1][1]) /\ ~Free(JoinOf(NextIn(f)[1][1]), t)
     \/ f.op = "fwait" /\ f.ph = "called" /\ s.fut[f.a] = -1 /\ (f.b > 0 => now < f.n + f.b)
Quiet == \A t \in Threads : Idle(t) \/ Blocked(t)
=============================================================================
