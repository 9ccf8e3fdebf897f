-------------------------------- MODULE IPC --------------------------------
(* One service shared by processes over local sockets: endpoint 0 is the server, 1..3 are      *)
(* clients.  A message sent to an endpoint is appended to its queue (specs/Sock.tla says why    *)
(* that is right); the endpoint's loop takes them one by one and handles them.  A client's loop *)
(* also looks from time to time whether the server is there.                                    *)
(* Operations o: 1 a request with a handler, 2 one without; 11 a property, 21 a signal.          *)
(* Numbers: requests r < 100, registrations k 200..299.                                          *)
(* A value is >= 0, -1 nothing, -100 - code an error.  A call under way is a list of tasks.      *)
EXTENDS Calls

Clients == 1..3
Ends == 0..3
IGNORED == -105
UNHANDLED == -103

Init ==
  /\ InitCalls
  /\ s = [alive |-> [e \in Ends |-> "no"], net |-> [e \in Ends |-> <<>>], gen |-> [e \in Ends |-> 0],
          over |-> {},                                            \* loops that have ended
          \* the server
          pav |-> 0, regd |-> {}, lock |-> -1,
          live |-> {}, val |-> {}, rob |-> <<>>,
          prop |-> <<-1, 0>>, ver |-> 0, subs |-> {},
          \* the clients: what they believe of server and service, and what they have asked for
          cur |-> [c \in Clients |-> 0], known |-> [c \in Clients |-> -1], rav |-> [c \in Clients |-> 0],
          made |-> {}, obs |-> {},
          pend |-> {}, info |-> <<>>, res |-> <<>>,
          regs |-> <<>>, cinfo |-> <<>>, cache |-> [c \in Clients |-> -1]]

Task(n, a, b, c, d) == <<n, a, b, c, d>>
Call(op, p, a, b) == <<"dl", 0, op, p, a, b>>
Go(t, x, r) == SetTop(t, [Top(t) EXCEPT !.x = x, !.res = r, !.ph = IF x = <<>> THEN "done" ELSE "run"])
Rest_(t) == Tail(Top(t).x)
Then(t, x) == Go(t, x \o Rest_(t), Top(t).res)       \* the first task becomes x
ThenR(t, x, r) == Go(t, x \o Rest_(t), r)
Over(t, r) == Go(t, <<>>, r)
Clear(f, k) == [i \in DOMAIN f \ {k} |-> f[i]]

(* ---------------------------------------------------------------- messages *)
\* sending m to e: <<did it succeed, the queues then>>; one that is going may lose it
Sent(e, m) ==
  CASE s.alive[e] = "up" -> {<<TRUE, [s.net EXCEPT ![e] = Append(@, m)]>>}
    [] s.alive[e] = "dying" -> {<<TRUE, s.net>>, <<FALSE, s.net>>}
    [] OTHER -> {<<FALSE, s.net>>}
Reach == CASE s.alive[0] = "up" -> {1} [] s.alive[0] = "dying" -> {0, 1} [] OTHER -> {0}
Mine(r) == s.info[r].c
\* what handling a message amounts to
Handling(e, m) ==
  IF e = 0 THEN
    CASE m[1] = "regsvc" -> <<Task("rs", m[2], 0, 0, 0)>>
      [] m[1] = "req" -> <<Task("serve", m[3], m[2], m[4], 0)>>
      [] m[1] = "get" -> <<Task("read", m[3], m[2], 0, 0)>>
      [] m[1] = "abort" -> <<Task("aborts", m[3], 0, 0, 0)>>
      [] m[1] = "sub" -> <<Task("subscribe", m[2], m[3], 0, 0)>>
      [] m[1] = "unsub" -> <<Task("unsubscribe", m[2], m[3], 0, 0)>>
      [] m[1] = "bye" -> <<Task("bye", m[2], 0, 0, 0)>>
  ELSE
    CASE m[1] = "svc" -> IF s.cur[e] = 0 THEN <<>> ELSE <<Task("known", e, m[2], 0, 0)>>
      [] e \notin s.made -> <<>>
      [] m[1] = "res" -> <<Task("receive", m[2], m[3], m[4], 0)>>
      [] m[1] = "note" -> <<Task("notify", e, m[2], m[3], 0)>>

(* ---------------------------------------------------------------- calls begin *)
LinEnd(t) ==
  LET f == Top(t) IN
  \/ /\ f.op = "loop" /\ st' = Go(t, <<Task("loop", f.p, f.a, 0, 0)>>, "void") /\ UNCHANGED s
  \/ /\ f.op = "sleep" /\ now >= f.n + f.a /\ st' = Over(t, "void") /\ UNCHANGED s
  \/ /\ f.op = "mks" /\ st' = Over(t, "true")
     /\ s' = [s EXCEPT !.alive[0] = "up", !.net[0] = <<>>, !.pav = 0, !.regd = {}, !.prop = <<-1, 0>>,
                       !.live = {}, !.val = {}, !.subs = {}]
  \/ /\ f.op = "mkc" /\ s' = [s EXCEPT !.alive[f.p] = "up"] /\ st' = Go(t, <<Task("make", f.p, 0, 0, 0)>>, "true")
  \/ /\ f.op = "kill" /\ s' = [s EXCEPT !.alive[f.p] = "dying"]
     /\ st' = Go(t, (IF f.a = 1 THEN <<Task("part", f.p, 0, 0, 0)>> ELSE <<>>) \o <<Task("killed", f.p, s.gen[f.p], 0, 0)>>, "void")
  \/ /\ f.op = "waitav" /\ s.rav[f.p] = 1 /\ st' = Over(t, "void") /\ UNCHANGED s
  \/ /\ f.op = "waitgone" /\ s.rav[f.p] = 0 /\ st' = Over(t, "void") /\ UNCHANGED s

LinClient(t) ==
  LET f == Top(t) c == f.p IN
  \/ /\ f.op = "status" /\ st' = Over(t, ToString(s.rav[c])) /\ UNCHANGED s
  \/ /\ f.op \in {"async", "sync"}
     /\ LET o == IF f.op = "sync" THEN f.b \div 1000 ELSE f.b IN
        IF s.rav[c] = 0 THEN st' = Over(t, "unavail") /\ UNCHANGED s
        ELSE /\ s' = [s EXCEPT !.pend = @ \cup {f.a}, !.res = Put(@, f.a, "w"),
                               !.info = Put(@, f.a, [c |-> c, o |-> o, k |-> IF f.op = "async" THEN "cb" ELSE "sync"])]
             /\ st' = Go(t, <<Task("recheck", f.a, c, 0, 0), <<"ask", f.a, <<"req", c, f.a, o>>>>>> \o
                            (IF f.op = "sync" THEN <<Task("wait", f.a, f.b % 1000, 0, 0)>> ELSE <<>>), "ok")
  \/ /\ f.op = "getst"
     /\ IF s.rav[c] = 0 THEN st' = Over(t, "unavail") /\ UNCHANGED s
        ELSE IF s.cache[c] # -1 THEN st' = Over(t, ToString(s.cache[c])) /\ UNCHANGED s
        ELSE /\ s' = [s EXCEPT !.pend = @ \cup {f.a}, !.res = Put(@, f.a, "w"),
                               !.info = Put(@, f.a, [c |-> c, o |-> f.b, k |-> "sync"])]
             /\ st' = Go(t, <<Task("recheck", f.a, c, 0, 0), <<"ask", f.a, <<"get", c, f.a, f.b>>>>,
                              Task("wait", f.a, 0, 0, 0)>>, "ok")
  \/ /\ f.op = "abort"
     /\ IF Get(s.info, f.a, [k |-> "bad"]).k = "bad" THEN st' = Over(t, "invalid") /\ UNCHANGED s
        ELSE st' = Go(t, <<Task("abort", f.a, 0, 0, 0)>>, "none") /\ UNCHANGED s
  \/ /\ f.op = "reg"
     /\ IF s.rav[c] = 0 THEN st' = Over(t, "unavail") /\ s' = [s EXCEPT !.cinfo = Put(@, f.a, [ok |-> FALSE])]
        ELSE LET k == <<c, f.b>> IN
             /\ s' = [s EXCEPT !.cinfo = Put(@, f.a, [ok |-> TRUE, k |-> k]), !.regs = Put(@, k, f.a)]
             /\ st' = Go(t, <<Task("rrecheck", f.a, c, f.b, 0), Task("enrol", f.a, c, f.b, 0)>>, "ok")
  \/ /\ f.op = "unreg"
     /\ IF ~Get(s.cinfo, f.a, [ok |-> FALSE]).ok THEN st' = Over(t, "invalid") /\ UNCHANGED s
        ELSE LET k == s.cinfo[f.a].k
                 left == Get(s.regs, k, 0) \notin {0, f.a} IN
             /\ s' = IF left THEN s ELSE [s EXCEPT !.regs = Clear(@, k), !.cache[c] = IF k[2] = 11 THEN -1 ELSE @]
             /\ st' = IF left THEN Over(t, "ok") ELSE Go(t, <<Task("unsub?", c, k[2], 0, 0)>>, "ok")

\* the request a server-side call is about exists and is in the caller's hands
InHands(t, r) == \/ Get(s.rob, r, "") = "kept"
                 \/ Get(s.rob, r, "") = "run" /\ \E i \in DOMAIN st[t] : st[t][i].body /\ st[t][i].op = "handler" /\ st[t][i].a = r
Rq(t) == IF Top(t).a # 0 THEN Top(t).a
         ELSE LET i == CHOOSE j \in DOMAIN st[t] : /\ st[t][j].op = "handler"
                                                  /\ \A k \in DOMAIN st[t] : st[t][k].op = "handler" => k <= j
              IN st[t][i].a
LinServer(t) ==
  LET f == Top(t) IN
  \/ /\ f.op \in {"start", "stop"}
     /\ LET v == IF f.op = "start" THEN 1 ELSE 0 IN
        s' = [s EXCEPT !.pav = v] /\ st' = Go(t, <<Task("nsv", v, 0, 0, 0)>>, "void")
  \/ /\ f.op \in {"resp", "upd"}
     /\ IF ~InHands(t, Rq(t)) THEN st' = Over(t, "absent") /\ UNCHANGED s
        ELSE IF Rq(t) \notin s.val THEN st' = Over(t, "no") /\ UNCHANGED s
        ELSE st' = Go(t, <<Task("answer", Rq(t), IF f.op = "resp" THEN 1 ELSE 0, f.b, 0)>>, "ok") /\ UNCHANGED s
  \/ /\ f.op = "keep"
     /\ IF InHands(t, Rq(t)) THEN s' = [s EXCEPT !.rob[Rq(t)] = "kept"] /\ st' = Over(t, "void")
        ELSE UNCHANGED s /\ st' = Over(t, "absent")
  \/ /\ f.op = "drop"
     /\ IF Get(s.rob, Rq(t), "") # "kept" THEN UNCHANGED s /\ st' = Over(t, "absent")
        ELSE IF \E u \in Threads : \E i \in DOMAIN st[u] :
                  \/ st[u][i].body /\ st[u][i].op = "handler" /\ st[u][i].a = Rq(t)
                  \/ ~st[u][i].body /\ \E j \in DOMAIN st[u][i].x : st[u][i].x[j][1] = "release" /\ st[u][i].x[j][2] = Rq(t)
        THEN s' = [s EXCEPT !.rob[Rq(t)] = "run"] /\ st' = Over(t, "void")     \* its handler still has it
        ELSE s' = [s EXCEPT !.rob[Rq(t)] = "gone"] /\ st' = Go(t, <<Task("drop", Rq(t), 0, 0, 0)>>, "void")
  \/ /\ f.op = "setst"
     /\ IF s.prop[2] # 0 /\ s.prop[1] = f.b THEN st' = Over(t, "noact") /\ UNCHANGED s
        ELSE /\ s' = [s EXCEPT !.prop = <<f.b, s.ver + 1>>, !.ver = @ + 1]
             /\ st' = Go(t, <<Task("cast", 11, f.b, s.ver + 1, 1)>>, "ok")
  \/ /\ f.op = "bcast" /\ st' = Go(t, <<Task("cast", 21, f.b, 0, 1)>>, "ok") /\ UNCHANGED s

(* ---------------------------------------------------------------- tasks *)
Of(c) == {r \in s.pend : Mine(r) = c}
\* an endpoint's loop: handles a message, looks whether the server is there, ends
TaskLoop(t) ==
  LET f == Top(t) k == f.x[1] e == k[2] IN
  /\ k[1] = "loop" /\ k[3] = s.gen[e]
  /\ \/ /\ s.net[e] # <<>> /\ s' = [s EXCEPT !.net[e] = Tail(@)]
        /\ st' = Then(t, Handling(e, s.net[e][1]) \o <<k>>)
     \/ /\ e # 0 /\ s.alive[e] \in {"up", "dying"} /\ s.cur[e] = 0 /\ 1 \in Reach
        /\ \E x \in Sent(0, <<"regsvc", e>>) :
             x[1] /\ s' = [s EXCEPT !.cur[e] = 1, !.net = x[2]] /\ UNCHANGED st
     \/ /\ e # 0 /\ s.alive[e] \in {"up", "dying"} /\ s.cur[e] = 1 /\ 0 \in Reach
        /\ s' = [s EXCEPT !.cur[e] = 0, !.known[e] = -1]
        /\ st' = Then(t, (IF e \in s.made THEN <<Task("avail", e, 0, 0, 0)>> ELSE <<>>) \o <<k>>)
     \/ /\ s.alive[e] = "dying" /\ s' = [s EXCEPT !.over = @ \cup {<<e, k[3]>>}] /\ st' = Over(t, "void")

TaskEnd(t) ==
  LET f == Top(t) k == f.x[1] e == k[2] IN
  \/ /\ k[1] = "make" /\ s' = [s EXCEPT !.made = @ \cup {e}, !.rav[e] = IF s.known[e] = 1 THEN 1 ELSE 0]
     /\ st' = Then(t, <<Task("observe", e, 0, 0, 0)>>)
  \/ /\ k[1] = "observe" /\ s' = [s EXCEPT !.obs = @ \cup {e}]
     /\ st' = Then(t, IF s.rav[e] = 1 THEN <<Task("tell", e, 1, 0, 0), Task("still", e, 1, 0, 0)>> ELSE <<>>)
  \* a client takes its leave
  \/ /\ k[1] = "part" /\ s' = [s EXCEPT !.pend = @ \ Of(e), !.made = @ \ {e}]
     /\ st' = Then(t, IF s.known[e] = -1 THEN <<>> ELSE <<Task("parting", e, 0, 0, 0)>>)
  \/ /\ k[1] = "parting" /\ \E x \in Sent(0, <<"bye", e>>) : s' = [s EXCEPT !.net = x[2]]
     /\ st' = Then(t, <<>>)
  \/ /\ k[1] = "killed" /\ <<e, k[3]>> \in s.over
     /\ s' = [s EXCEPT !.alive[e] = "dead", !.gen[e] = @ + 1, !.net[e] = <<>>,
                       !.rob = IF e # 0 THEN @ ELSE [r \in DOMAIN @ |-> "gone"]]
     /\ st' = Then(t, <<>>)
  \* availability reaches a client
  \/ /\ k[1] = "known" /\ s' = [s EXCEPT !.known[e] = k[3]]
     /\ st' = Then(t, IF e \in s.made THEN <<Task("avail", e, k[3], 0, 0)>> ELSE <<>>)
  \/ /\ k[1] = "avail"
     /\ IF s.rav[e] = k[3] THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE IF k[3] = 1 /\ k[4] = 0        \* values from before are forgotten
        THEN s' = [s EXCEPT !.cache[e] = -1] /\ st' = Then(t, <<Task("avail", e, 1, 1, 0)>>)
        ELSE /\ s' = [s EXCEPT !.rav[e] = k[3]]
             /\ st' = Then(t, (IF k[3] = 0 THEN <<Task("lose", e, 0, 0, 0), Task("forget", e, 0, 0, 0)>> ELSE <<>>)
                              \o <<Task("tellall", e, k[3], 0, 0)>>)
  \/ /\ k[1] = "lose" /\ s' = [s EXCEPT !.pend = @ \ Of(e)] /\ st' = Then(t, <<<<"breaks", Of(e), 0, 0, 0>>>>)
  \/ /\ k[1] = "breaks"
     /\ LET w == {r \in k[2] : s.res[r] = "w" /\ s.info[r].k = "sync"} IN
        IF w = {} THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE \E r \in w : s' = [s EXCEPT !.res[r] = "broken"] /\ st' = Then(t, <<<<"breaks", w \ {r}, 0, 0, 0>>>>)
  \/ /\ k[1] = "forget" /\ s' = [s EXCEPT !.regs = [i \in {j \in DOMAIN @ : j[1] # e} |-> @[i]]]
     /\ st' = Then(t, <<>>)
  \/ /\ k[1] = "tellall" /\ UNCHANGED s
     /\ st' = Then(t, IF e \in s.obs THEN <<Task("tell", e, k[3], 0, 0)>> ELSE <<>>)
  \/ /\ k[1] = "tell" /\ UNCHANGED s
     /\ st' = Then(t, <<Call("avail", e, 400 + 2 * e + k[3], k[3])>>)
  \/ /\ k[1] = "still" /\ UNCHANGED s
     /\ st' = Then(t, IF s.rav[e] = k[3] THEN <<>>
                      ELSE <<Task("tell", e, 1 - k[3], 0, 0), Task("still", e, 1 - k[3], 0, 0)>>)

Finish(r) == [s EXCEPT !.pend = @ \ {r}, !.info[r].k = "bad"]
TaskClient(t) ==
  LET f == Top(t) k == f.x[1] r == k[2] IN
  \/ /\ k[1] = "recheck"
     /\ IF s.rav[k[3]] = 1 THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE s' = Finish(r) /\ st' = Over(t, "unavail")
  \/ /\ k[1] = "ask"
     /\ \E x \in Sent(0, k[3]) :
          IF x[1] THEN s' = [s EXCEPT !.net = x[2]] /\ st' = Then(t, <<>>)
          ELSE s' = Finish(r) /\ st' = Over(t, "fail")
  \/ /\ k[1] = "receive"
     /\ LET i == s.info[r] fin == k[3] = 1 IN
        IF r \notin s.pend THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE /\ s' = IF ~fin THEN s
                     ELSE [s EXCEPT !.pend = @ \ {r}, !.res[r] = IF i.k = "sync" THEN ToString(k[4]) ELSE @]
             /\ st' = Then(t, IF i.k = "cb" THEN <<Call("ans", i.c, 100 + r, k[4])>> ELSE <<>>)
  \/ /\ k[1] = "wait"
     /\ \/ s.res[r] # "w" /\ st' = Over(t, s.res[r]) /\ UNCHANGED s
        \/ /\ s.res[r] = "w" /\ k[3] > 0 /\ now >= f.n + k[3]
           /\ st' = Go(t, <<Task("abort", r, 0, 0, 0)>>, "timeout") /\ UNCHANGED s
  \/ /\ k[1] = "abort"
     /\ IF r \notin s.pend THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE s' = [s EXCEPT !.pend = @ \ {r}] /\ st' = Then(t, <<Task("abort2", r, 0, 0, 0)>>)
  \/ /\ k[1] = "abort2"
     /\ \E x \in Sent(0, <<"abort", Mine(r), r>>) :
          /\ s' = [s EXCEPT !.net = x[2]]
          /\ st' = ThenR(t, <<>>, IF f.op # "abort" THEN f.res ELSE IF x[1] THEN "ok" ELSE "fail")
  \* registrations
  \/ /\ k[1] = "rrecheck"
     /\ IF s.rav[k[3]] = 1 THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE /\ s' = [s EXCEPT !.regs = IF Get(@, <<k[3], k[4]>>, 0) = r THEN Clear(@, <<k[3], k[4]>>) ELSE @,
                               !.cinfo[r].ok = FALSE, !.cache[k[3]] = IF k[4] = 11 THEN -1 ELSE @]
             /\ st' = Over(t, "unavail")
  \/ /\ k[1] = "enrol"
     /\ \E x \in Sent(0, <<"sub", k[3], k[4]>>) :
          IF x[1] THEN s' = [s EXCEPT !.net = x[2]] /\ st' = Then(t, <<>>)
          ELSE /\ s' = [s EXCEPT !.regs = IF Get(@, <<k[3], k[4]>>, 0) = r THEN Clear(@, <<k[3], k[4]>>) ELSE @,
                                 !.cinfo[r].ok = FALSE]
               /\ st' = Over(t, "fail")
  \/ /\ k[1] = "unsub?"
     /\ IF s.rav[k[2]] = 0 THEN st' = Over(t, "unavail") /\ UNCHANGED s
        ELSE st' = Then(t, <<Task("unsub", k[2], k[3], 0, 0)>>) /\ UNCHANGED s
  \/ /\ k[1] = "unsub" /\ \E x \in Sent(0, <<"unsub", k[2], k[3]>>) : s' = [s EXCEPT !.net = x[2]]
     /\ st' = Then(t, <<Task("resub", k[2], k[3], 0, 0)>>)
  \/ /\ k[1] = "resub" /\ UNCHANGED s
     /\ st' = Then(t, IF <<k[2], k[3]>> \in DOMAIN s.regs THEN <<Task("resub2", k[2], k[3], 0, 0)>> ELSE <<>>)
  \/ /\ k[1] = "resub2" /\ \E x \in Sent(0, <<"sub", k[2], k[3]>>) : s' = [s EXCEPT !.net = x[2]]
     /\ st' = Then(t, <<>>)
  \/ /\ k[1] = "notify"
     /\ LET key == <<k[2], k[3]>> IN
        IF key \notin DOMAIN s.regs THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE /\ s' = IF k[3] = 11 THEN [s EXCEPT !.cache[k[2]] = k[4]] ELSE s
             /\ st' = Then(t, <<Call("note", k[2], s.regs[key], k[4])>>)

RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE i \in S : \A j \in S : i <= j IN <<m>> \o Asc(S \ {m})
Subscribed(o) == {c \in Clients : <<c, o>> \in s.subs}
\* m goes back to client c, whatever becomes of it
Back(t, c, m, x) == /\ \E y \in Sent(c, m) : s' = [s EXCEPT !.net = y[2]]
                    /\ st' = Then(t, x)
TaskServer(t) ==
  LET f == Top(t) k == f.x[1] r == k[2] IN
  \* whether the service is available: told to one that asks, and to all when it changes
  \/ /\ k[1] = "rs" /\ s.lock = -1
     /\ s' = [s EXCEPT !.regd = @ \cup {k[2]}, !.lock = IF s.pav = 1 THEN t ELSE -1]
     /\ st' = Then(t, IF s.pav = 1 THEN <<Task("rs2", k[2], 0, 0, 0)>> ELSE <<>>)
  \/ /\ k[1] = "rs2" /\ \E y \in Sent(k[2], <<"svc", 1>>) : s' = [s EXCEPT !.net = y[2], !.lock = -1]
     /\ st' = Then(t, <<>>)
  \/ /\ k[1] = "nsv" /\ s.lock = -1
     /\ IF s.regd = {} THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE s' = [s EXCEPT !.lock = t] /\ st' = Then(t, <<<<"nsv2", k[2], Asc(s.regd)>>>>)
  \/ /\ k[1] = "nsv2"
     /\ LET c == k[3][1] IN
        \E y \in Sent(c, <<"svc", k[2]>>) :
          /\ s' = [s EXCEPT !.net = y[2], !.regd = IF y[1] THEN @ ELSE @ \ {c}, !.lock = IF Len(k[3]) = 1 THEN -1 ELSE @]
          /\ st' = Then(t, IF Len(k[3]) = 1 THEN <<>> ELSE <<<<"nsv2", k[2], Tail(k[3])>>>>)
  \* requests
  \/ /\ k[1] = "serve"
     /\ IF k[4] # 1 THEN Back(t, k[3], <<"res", r, 1, UNHANDLED>>, <<>>)
        ELSE /\ s' = [s EXCEPT !.live = @ \cup {r}, !.val = @ \cup {r}, !.rob = Put(@, r, "sent")]
             /\ st' = Then(t, <<Call("handler", 0, r, 1)>>)
  \/ /\ k[1] = "read" /\ Back(t, k[3], <<"res", r, 1, s.prop[1]>>, <<>>)
  \/ /\ k[1] = "release"
     /\ IF s.rob[r] # "run" THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE s' = [s EXCEPT !.rob[r] = "gone"] /\ st' = Then(t, <<Task("drop", r, 0, 0, 0)>>)
  \/ /\ k[1] = "drop" /\ UNCHANGED s
     /\ st' = Then(t, IF r \in s.val THEN <<Task("answer", r, 1, IGNORED, 0)>> ELSE <<>>)
  \/ /\ k[1] = "answer"
     /\ IF r \notin s.live THEN UNCHANGED s /\ st' = ThenR(t, <<>>, IF f.op \in {"resp", "upd"} THEN "no" ELSE f.res)
        ELSE /\ s' = IF k[3] = 1 THEN [s EXCEPT !.live = @ \ {r}] ELSE s
             /\ st' = Then(t, (IF k[3] = 1 THEN <<Task("invalid", r, 0, 0, 0)>> ELSE <<>>) \o <<Task("reply", r, k[3], k[4], 0)>>)
  \/ /\ k[1] = "invalid" /\ s' = [s EXCEPT !.val = @ \ {r}] /\ st' = Then(t, <<>>)
  \/ /\ k[1] = "reply"
     /\ \E y \in Sent(Mine(r), <<"res", r, k[3], k[4]>>) :
          /\ s' = [s EXCEPT !.net = y[2]]
          /\ st' = ThenR(t, <<>>, IF f.op \in {"resp", "upd"} /\ ~y[1] THEN "no" ELSE f.res)
  \/ /\ k[1] = "aborts"
     /\ IF r \notin s.live THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE s' = [s EXCEPT !.live = @ \ {r}] /\ st' = Then(t, <<Task("invalid", r, 0, 0, 0), Call("aborted", 0, 300 + r, 0)>>)
  \* subscriptions
  \/ /\ k[1] = "subscribe" /\ s' = [s EXCEPT !.subs = @ \cup {<<k[2], k[3]>>}]
     /\ st' = Then(t, IF k[3] = 11 THEN <<Task("update", k[2], 0, 0, 0)>> ELSE <<>>)
  \/ /\ k[1] = "update" /\ UNCHANGED s
     /\ st' = Then(t, IF s.prop[2] = 0 THEN <<>>
                      ELSE <<Task("update2", k[2], s.prop[1], 0, 0), Task("recast", 11, s.prop[2], 0, 0)>>)
  \/ /\ k[1] = "update2" /\ Back(t, k[2], <<"note", 11, k[3]>>, <<>>)
  \/ /\ k[1] = "unsubscribe" /\ s' = [s EXCEPT !.subs = @ \ {<<k[2], k[3]>>}] /\ st' = Then(t, <<>>)
  \/ /\ k[1] = "bye" /\ s' = [s EXCEPT !.subs = {x \in @ : x[1] # k[2]}] /\ st' = Then(t, <<>>)
  \* a value to everybody subscribed; k[5]: the result of the call says whether anybody got it
  \/ /\ k[1] = "cast" /\ UNCHANGED s
     /\ LET l == Asc(Subscribed(k[2])) IN
        st' = ThenR(t, (IF l = <<>> THEN <<>> ELSE <<<<"notes", k[2], k[3], l, k[5]>>>>) \o
                       (IF k[2] = 11 THEN <<Task("recast", 11, k[4], 0, 0)>> ELSE <<>>),
                    IF k[5] = 0 THEN f.res ELSE IF l = <<>> THEN "ok" ELSE "fail")
  \/ /\ k[1] = "notes"
     /\ LET c == k[4][1] IN
        \E y \in Sent(c, <<"note", k[2], k[3]>>) :
          /\ s' = [s EXCEPT !.net = y[2], !.subs = IF y[1] THEN @ ELSE {x \in @ : x[1] # c}]
          /\ st' = ThenR(t, IF Len(k[4]) = 1 THEN <<>> ELSE <<<<"notes", k[2], k[3], Tail(k[4]), k[5]>>>>,
                         IF k[5] = 1 /\ y[1] THEN "ok" ELSE f.res)
  \* it may have changed meanwhile
  \/ /\ k[1] = "recast" /\ UNCHANGED s
     /\ st' = Then(t, IF s.prop[2] = k[3] THEN <<>> ELSE <<Task("cast", 11, s.prop[1], s.prop[2], 0)>>)

Lin(t) ==
  /\ InCall(t)
  /\ \/ Top(t).ph = "called" /\ (LinEnd(t) \/ LinClient(t) \/ LinServer(t))
     \/ Top(t).ph = "run" /\ (TaskLoop(t) \/ TaskEnd(t) \/ TaskClient(t) \/ TaskServer(t))
  /\ UNCHANGED now
\* steps no other thread can see
Local(t) == Top(t).ph = "run" /\ Top(t).x[1][1] \in {"tell"}

BeginOK(t, op, p, a, b) == Top(t).ph = "run" /\ Top(t).x[1] = Call(op, p, a, b)
DoBegin(t, op, p, a, b) ==
  /\ InCall(t) /\ BeginOK(t, op, p, a, b)
  /\ st' = [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1) \o <<[Top(t) EXCEPT !.x = Tail(@)], BodyFrame(op, p, a, b)>>]
  /\ s' = IF op = "handler" THEN [s EXCEPT !.rob[a] = "run"] ELSE s
DoEnd(t, op, p, a, b, r) ==
  /\ IsTopBody(t, op, p, a, b)
  /\ LET n == Len(st[t])
         u == Under(t)
         x == (IF op = "handler" THEN <<Task("release", a, 0, 0, 0)>> ELSE <<>>) \o u.x
     IN /\ st' = [st EXCEPT ![t] = Append(SubSeq(@, 1, n - 2), [u EXCEPT !.x = x, !.ph = IF x = <<>> THEN "done" ELSE "run"])]
        /\ UNCHANGED s

\* nothing to do for endpoint e's loop
LoopIdle(e, gen) ==
  \/ gen # s.gen[e]
  \/ /\ s.net[e] = <<>> /\ s.alive[e] # "dying"
     /\ e # 0 /\ s.alive[e] = "up" => Reach = {s.cur[e]}
Blocked(t) ==
  LET f == Top(t) IN
  /\ InCall(t)
  /\ \/ f.ph = "run" /\ f.x[1][1] = "wait" /\ s.res[f.x[1][2]] = "w" /\ (f.x[1][3] > 0 => now < f.n + f.x[1][3])
     \/ f.ph = "run" /\ f.x[1][1] = "loop" /\ LoopIdle(f.x[1][2], f.x[1][3])
     \/ f.ph = "called" /\ f.op = "sleep" /\ now < f.n + f.a
     \/ f.ph = "called" /\ f.op = "waitav" /\ s.rav[f.p] = 0
     \/ f.ph = "called" /\ f.op = "waitgone" /\ s.rav[f.p] = 1
Quiet == \A t \in Threads : Idle(t) \/ Blocked(t)
=============================================================================
