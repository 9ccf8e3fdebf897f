--------------------------------- MODULE CS ---------------------------------
(* Services, their providers (stubs) and requesters (proxies) within one process.           *)
(* Services p: 1, 2.  Operations o: 1, 2 requests with a number as input and output,        *)
(* 3 a request without (an answer's number is lost); 11, 12 properties; 21 signals with a number, 22 without.            *)
(* Executors: 0 direct, 1 and 2 queues that somebody drains, 3 one that has gone.           *)
(* Numbers: requests r, handlers h, registrations c, observers n, server-side listeners l,  *)
(* abort callbacks k.  A value is >= 0, -1 nothing, -100 - code an error.                   *)
(* A call under way is a list of tasks (its frame's x), a task is <<name, a, b, c, d>>.     *)
EXTENDS Calls

Sids == 1..2
IGNORED == -105
UNHANDLED == -103
Statuses == {11, 12}
Signals == {21, 22}

Init ==
  /\ InitCalls
  /\ s = [prox |-> <<>>, stub |-> <<>>, rq |-> {},
          pav |-> [p \in Sids |-> 0], rav |-> [p \in Sids |-> 0],
          info |-> <<>>, pend |-> {}, res |-> <<>>,           \* client side of requests
          live |-> {}, val |-> {}, rob |-> <<>>, acb |-> <<>>, \* server side of requests
          hdl |-> <<>>, prop |-> <<>>, ver |-> 0, subs |-> {},
          lst |-> <<>>, ln |-> 0, lown |-> <<>>,               \* listeners <<l, executor, number>>; who is telling them
          regs |-> <<>>, cinfo |-> <<>>, cache |-> <<>>,
          obs |-> [p \in Sids |-> <<>>], oinfo |-> <<>>, sg |-> <<>>,
          exq |-> [e \in 1..2 |-> <<>>]]

Regs(k) == Get(s.regs, k, <<>>)
Prop(k) == Get(s.prop, k, <<-1, 0>>)      \* value, version; version 0: never set or removed
Cached(k) == Get(s.cache, k, <<-1, 0>>)   \* value, version of the update that brought it
Clear(f, k) == [i \in DOMAIN f \ {k} |-> f[i]]
IsStatus(o) == o \in Statuses

Task(n, a, b, c, d) == <<n, a, b, c, d>>
\* hand a callback to executor e
Call(e, op, p, a, b) == <<"dl", e, op, p, a, b>>
\* what is left to do, and the result
Go(t, x, r) == SetTop(t, [Top(t) EXCEPT !.x = x, !.res = r, !.ph = IF x = <<>> THEN "done" ELSE "run"])
Rest_(t) == Tail(Top(t).x)
Then(t, x) == Go(t, x \o Rest_(t), Top(t).res)       \* the first task becomes x
ThenR(t, x, r) == Go(t, x \o Rest_(t), r)
Over(t, r) == Go(t, <<>>, r)

(* ---------------------------------------------------------------- calls begin *)
Sid(f) == s.prox[f.p][1]
Pex(f) == s.prox[f.p][2]
Ssid(f) == s.stub[f.p][1]
Sex(f) == s.stub[f.p][2]
Unavail(f) == s.rav[Sid(f)] = 0
LinClient(t) ==
  LET f == Top(t) IN
  \/ /\ f.op = "mkproxy" /\ s' = [s EXCEPT !.prox = Put(@, f.a, <<f.p, f.b>>), !.rq = @ \cup {f.p}]
     /\ st' = Over(t, "ok")
  \/ /\ f.op = "status" /\ st' = Over(t, ToString(s.rav[Sid(f)])) /\ UNCHANGED s
  \* requests
  \/ /\ f.op \in {"async", "sync", "post"}
     /\ IF Unavail(f) THEN st' = Over(t, "unavail") /\ UNCHANGED s
        ELSE LET o == IF f.op = "sync" THEN f.b \div 1000 ELSE f.b
                 kind == IF f.op = "async" THEN "cb" ELSE IF f.op = "sync" THEN "sync" ELSE "none" IN
             /\ s' = [s EXCEPT !.pend = @ \cup {f.a}, !.res = Put(@, f.a, "w"),
                               !.info = Put(@, f.a, [p |-> Sid(f), o |-> o, e |-> Pex(f), k |-> kind])]
             /\ st' = Go(t, <<Task("recheck", f.a, Sid(f), 0, 0), Task("serve", f.a, 0, 0, 0)>> \o
                            (IF f.op = "sync" THEN <<Task("wait", f.a, f.b % 1000, 0, 0)>> ELSE <<>>), "ok")
  \/ /\ f.op = "abort"
     /\ IF Get(s.info, f.a, [k |-> "bad"]).k = "bad" THEN st' = Over(t, "invalid") /\ UNCHANGED s
        ELSE st' = Go(t, <<Task("abort", f.a, 0, 0, 0)>>, "none") /\ UNCHANGED s
  \* registrations
  \/ /\ f.op = "reg"
     /\ IF Unavail(f) THEN st' = Over(t, "unavail") /\ s' = [s EXCEPT !.cinfo = Put(@, f.a, [ok |-> FALSE])]
        ELSE LET k == <<Sid(f), f.b>> IN
             /\ s' = [s EXCEPT !.cinfo = Put(@, f.a, [ok |-> TRUE, k |-> k, e |-> Pex(f)]),
                               !.regs = Put(@, k, Append(Regs(k), f.a))]
             /\ st' = Go(t, IF Regs(k) = <<>>
                            THEN <<Task("rrecheck", f.a, Sid(f), 0, 0), Task("subscribe", k[1], k[2], 0, 0)>>
                            ELSE IF IsStatus(f.b)
                                 THEN <<Task("rrecheck", f.a, Sid(f), 0, 0), Task("cached", f.a, 0, 0, 0)>>
                                 ELSE <<Task("rrecheck", f.a, Sid(f), 0, 0)>>, "ok")
  \/ /\ f.op = "unreg"
     /\ IF ~Get(s.cinfo, f.a, [ok |-> FALSE]).ok THEN st' = Over(t, "invalid") /\ UNCHANGED s
        ELSE LET k == s.cinfo[f.a].k
                 left == Without(Regs(k), f.a) IN
             /\ s' = [s EXCEPT !.regs = Put(@, k, left), !.cache = IF left = <<>> THEN Clear(@, k) ELSE @]
             /\ st' = IF left # <<>> THEN Over(t, "ok")
                      ELSE Go(t, <<Task("unsub?", k[1], k[2], 0, 0)>>, "ok")
  \/ /\ f.op = "unregall"
     /\ IF Unavail(f) THEN st' = Over(t, "unavail") /\ UNCHANGED s
        ELSE LET k == <<Sid(f), f.b>> IN
             /\ s' = [s EXCEPT !.regs = Put(@, k, <<>>), !.cache = Clear(@, k)]
             /\ st' = Go(t, <<Task("unsub", k[1], k[2], 0, 0)>>, "ok")
  \* reading a property
  \/ /\ f.op = "getst"
     /\ LET k == <<Sid(f), f.b>> IN
        IF Unavail(f) THEN st' = Over(t, "unavail") /\ UNCHANGED s
        ELSE IF k \in DOMAIN s.cache THEN st' = Over(t, ToString(Cached(k)[1])) /\ UNCHANGED s
        ELSE /\ s' = [s EXCEPT !.pend = @ \cup {f.a}, !.res = Put(@, f.a, "w"),
                               !.info = Put(@, f.a, [p |-> k[1], o |-> k[2], e |-> Pex(f), k |-> "sync"])]
             /\ st' = Go(t, <<Task("recheck", f.a, k[1], 0, 0), Task("read", f.a, 0, 0, 0), Task("wait", f.a, 0, 0, 0)>>, "ok")
  \/ /\ f.op = "getsta"
     /\ LET k == <<Sid(f), f.b>> IN
        IF Unavail(f) THEN st' = Go(t, <<Task("lastknown", f.a, k[1], k[2], 0)>>, "unavail") /\ UNCHANGED s
        ELSE IF k \in DOMAIN s.cache
        THEN st' = Go(t, <<Call(Pex(f), "got", 0, f.a, Cached(k)[1])>>, "ok") /\ UNCHANGED s
        ELSE /\ s' = [s EXCEPT !.pend = @ \cup {f.a}, !.res = Put(@, f.a, "w"),
                               !.info = Put(@, f.a, [p |-> k[1], o |-> k[2], e |-> Pex(f), k |-> "got"])]
             /\ st' = Go(t, <<Task("recheck", f.a, k[1], 0, 0), Task("read", f.a, 0, 0, 0)>>, "ok")
  \* availability
  \/ /\ f.op = "observe"        \* b: 0 directly, 1 through the proxy's executor, 2 a signal to wait for
     /\ LET p == Sid(f) n == f.a IN
        /\ s' = [s EXCEPT !.obs[p] = Append(@, n), !.sg = Put(@, n, 0),
                          !.oinfo = Put(@, n, [p |-> p, k |-> f.b, e |-> IF f.b = 1 THEN Pex(f) ELSE 0, off |-> FALSE])]
        /\ st' = IF s.rav[p] = 1 THEN Go(t, <<Task("tell", n, 1, 2, 0), Task("still", n, p, 1, 0)>>, "ok") ELSE Over(t, "ok")
  \/ /\ f.op = "unobserve" /\ s' = [s EXCEPT !.obs = [p \in Sids |-> Without(@[p], f.a)]] /\ st' = Over(t, "void")
  \/ /\ f.op = "sigstop" /\ s' = [s EXCEPT !.oinfo[f.a].off = TRUE] /\ st' = Over(t, "void")
  \/ /\ f.op = "sigcur" /\ st' = Over(t, ToString(s.sg[f.a])) /\ UNCHANGED s
  \/ /\ f.op = "drain" /\ st' = Go(t, <<Task("drain", f.p, 0, 0, 0)>>, "void") /\ UNCHANGED s

SigReady(f) == s.oinfo[f.a].off \/ s.sg[f.a] = f.b % 10
SigTimeout(f) == f.b \div 10
LinSigWait(t) ==
  LET f == Top(t) IN
  /\ f.op = "sigwait" /\ UNCHANGED s
  /\ \/ SigReady(f) /\ st' = Over(t, IF s.oinfo[f.a].off THEN "stopped" ELSE "ready")
     \/ ~SigReady(f) /\ SigTimeout(f) > 0 /\ now >= f.n + SigTimeout(f) /\ st' = Over(t, "timeout")

\* the request a server-side call is about exists and is in the caller's hands
InHands(t, r) == \/ Get(s.rob, r, "") = "kept"
                 \/ Get(s.rob, r, "") = "run" /\ \E i \in DOMAIN st[t] : st[t][i].body /\ st[t][i].op = "handler" /\ st[t][i].p = r
\* 0: the request whose handler is running
Rq(t) == IF Top(t).a # 0 THEN Top(t).a
         ELSE LET i == CHOOSE j \in DOMAIN st[t] : /\ st[t][j].op = "handler"
                                                  /\ \A k \in DOMAIN st[t] : st[t][k].op = "handler" => k <= j
              IN st[t][i].p
\* one thread at a time tells the listeners of a property or signal
Free(k, t) == Get(s.lown, k, -1) \in {-1, t}
Hears(l) == {k \in DOMAIN s.lst : \E i \in DOMAIN s.lst[k] : s.lst[k][i][1] = l}
LinServer(t) ==
  LET f == Top(t) IN
  \/ /\ f.op = "mkstub" /\ s' = [s EXCEPT !.stub = Put(@, f.a, <<f.p, f.b>>)] /\ st' = Over(t, "ok")
  \/ /\ f.op = "spav" /\ st' = Over(t, ToString(s.pav[Ssid(f)])) /\ UNCHANGED s
  \/ /\ f.op = "handle"
     /\ LET k == <<Ssid(f), f.b>> IN
        IF k \in DOMAIN s.hdl THEN st' = Over(t, "false") /\ UNCHANGED s
        ELSE s' = [s EXCEPT !.hdl = Put(@, k, <<f.a, Sex(f)>>)] /\ st' = Over(t, "true")
  \/ /\ f.op = "unhandle"
     /\ LET k == <<Ssid(f), f.b>> IN
        s' = [s EXCEPT !.hdl = Clear(@, k)] /\ st' = Over(t, Bool(k \in DOMAIN s.hdl))
  \/ /\ f.op \in {"start", "stop"}
     /\ LET v == IF f.op = "start" THEN 1 ELSE 0 IN
        s' = [s EXCEPT !.pav[Ssid(f)] = v] /\ st' = Go(t, <<Task("avail", Ssid(f), v, 0, 0)>>, "void")
  \* requests
  \/ /\ f.op \in {"resp", "upd"}
     /\ IF ~InHands(t, Rq(t)) THEN st' = Over(t, "absent") /\ UNCHANGED s
        ELSE IF Rq(t) \notin s.val THEN st' = Over(t, "no") /\ UNCHANGED s
        ELSE st' = Go(t, <<Task("answer", Rq(t), IF f.op = "resp" THEN 1 ELSE 0, f.b, 0)>>, "ok") /\ UNCHANGED s
  \/ /\ f.op = "valid" /\ st' = Over(t, IF InHands(t, Rq(t)) THEN Bool(Rq(t) \in s.val) ELSE "absent") /\ UNCHANGED s
  \/ /\ f.op = "keep"
     /\ IF InHands(t, Rq(t)) THEN s' = [s EXCEPT !.rob[Rq(t)] = "kept"] /\ st' = Over(t, "void")
        ELSE UNCHANGED s /\ st' = Over(t, "absent")
  \/ /\ f.op = "drop"
     /\ IF Get(s.rob, Rq(t), "") # "kept" THEN UNCHANGED s /\ st' = Over(t, "absent")
        ELSE IF \E u \in Threads : \E i \in DOMAIN st[u] :
                  \/ st[u][i].body /\ st[u][i].op = "handler" /\ st[u][i].p = Rq(t)
                  \/ ~st[u][i].body /\ \E j \in DOMAIN st[u][i].x : st[u][i].x[j][1] = "release" /\ st[u][i].x[j][2] = Rq(t)
        THEN s' = [s EXCEPT !.rob[Rq(t)] = "run"] /\ st' = Over(t, "void")     \* its handler still has it
        ELSE s' = [s EXCEPT !.rob[Rq(t)] = "gone"] /\ st' = Go(t, <<Task("drop", Rq(t), 0, 0, 0)>>, "void")
  \/ /\ f.op = "onabort"
     /\ IF ~InHands(t, Rq(t)) THEN st' = Over(t, "absent") /\ UNCHANGED s
        ELSE IF Rq(t) \in s.val THEN s' = [s EXCEPT !.acb = Put(@, Rq(t), f.b)] /\ st' = Over(t, "void")
        ELSE st' = Go(t, <<Call(0, "aborted", 0, f.b, Rq(t))>>, "void") /\ UNCHANGED s
  \* properties and signals
  \/ /\ f.op = "setst"
     /\ LET k == <<Ssid(f), f.a>> IN
        IF k \in DOMAIN s.prop /\ Prop(k)[1] = f.b THEN st' = Over(t, "noact") /\ UNCHANGED s
        ELSE /\ s' = [s EXCEPT !.prop = Put(@, k, <<f.b, s.ver + 1>>), !.ver = @ + 1]
             /\ st' = Go(t, <<Task("listen", k[1], k[2], f.b, 0), Task("cast", k[1], k[2], f.b, s.ver + 1)>>, "ok")
  \/ /\ f.op = "remst"
     /\ LET k == <<Ssid(f), f.a>> IN
        /\ s' = [s EXCEPT !.prop = Clear(@, k)]
        /\ st' = IF f.b = 0 THEN Over(t, "ok")
                 ELSE Go(t, <<Task("listen", k[1], k[2], -1, 0), Task("cast", k[1], k[2], -1, 0)>>, "ok")
  \/ /\ f.op = "sget" /\ st' = Over(t, ToString(Prop(<<Ssid(f), f.a>>)[1])) /\ UNCHANGED s
  \/ /\ f.op = "bcast"
     /\ LET p == Ssid(f) v == IF f.a = 22 THEN -1 ELSE f.b IN
        st' = Go(t, <<Task("listen", p, f.a, v, 0), Task("cast", p, f.a, v, 0)>>, "ok") /\ UNCHANGED s
  \/ /\ f.op = "hear" /\ Free(<<Ssid(f), f.b>>, t)
     /\ LET k == <<Ssid(f), f.b>> IN
        s' = [s EXCEPT !.lst = Put(@, k, Append(Get(@, k, <<>>), <<f.a, Sex(f), s.ln + 1>>)), !.ln = @ + 1]
     /\ st' = Over(t, "ok")
  \/ /\ f.op = "unhear" /\ \A k \in Hears(f.a) : Free(k, t)
     /\ s' = [s EXCEPT !.lst = [k \in DOMAIN @ |-> SelectSeq(@[k], LAMBDA y : y[1] # f.a)]] /\ st' = Over(t, "void")

(* ---------------------------------------------------------------- tasks *)
Calls(seq, op, v) == [i \in DOMAIN seq |-> Call(s.cinfo[seq[i]].e, op, 0, seq[i], v)]
Of(p) == {r \in s.pend : s.info[r].p = p}
TaskRequest(t) ==
  LET f == Top(t) k == f.x[1] r == k[2] IN
  \/ /\ k[1] = "recheck"
     /\ IF s.rav[k[3]] = 1 THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE s' = [s EXCEPT !.pend = @ \ {r}, !.info[r].k = "bad"] /\ st' = Over(t, IF f.op = "getsta" THEN "ok" ELSE "unavail")
  \/ /\ k[1] = "serve"
     /\ LET i == s.info[r] h == <<i.p, i.o>> IN
        IF h \notin DOMAIN s.hdl THEN st' = Then(t, <<Task("receive", r, 1, UNHANDLED, 0)>>) /\ UNCHANGED s
        ELSE /\ s' = [s EXCEPT !.live = @ \cup {r}, !.val = @ \cup {r}, !.rob = Put(@, r, "sent")]
             /\ st' = Then(t, <<Call(s.hdl[h][2], "handler", r, s.hdl[h][1], IF i.o = 3 THEN -1 ELSE r)>>)
  \/ /\ k[1] = "lastknown" /\ UNCHANGED s
     /\ st' = Then(t, <<Call(Pex(f), "got", 0, r, Cached(<<k[3], k[4]>>)[1])>>)
  \/ /\ k[1] = "read"
     /\ st' = Then(t, <<Task("receive", r, 1, Prop(<<s.info[r].p, s.info[r].o>>)[1], 0)>>) /\ UNCHANGED s
  \* the handler is over, or the request was dropped
  \/ /\ k[1] = "release"
     /\ IF s.rob[r] # "run" THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE s' = [s EXCEPT !.rob[r] = "gone"] /\ st' = Then(t, <<Task("drop", r, 0, 0, 0)>>)
  \/ /\ k[1] = "drop" /\ UNCHANGED s
     /\ st' = Then(t, IF r \in s.val THEN <<Task("answer", r, 1, IGNORED, 0)>> ELSE <<>>)
  \/ /\ k[1] = "answer"
     /\ IF r \notin s.live THEN UNCHANGED s /\ st' = ThenR(t, <<>>, IF f.op \in {"resp", "upd"} THEN "no" ELSE f.res)
        ELSE /\ s' = IF k[3] = 1 THEN [s EXCEPT !.live = @ \ {r}] ELSE s
             /\ st' = Then(t, (IF k[3] = 1 THEN <<Task("invalid", r, 0, 0, 0)>> ELSE <<>>) \o
                              <<Task("receive", r, k[3], IF s.info[r].o = 3 /\ k[4] >= 0 THEN -1 ELSE k[4], 0)>>)
  \/ /\ k[1] = "invalid" /\ s' = [s EXCEPT !.val = @ \ {r}] /\ st' = Then(t, <<>>)
  \* the client is told
  \/ /\ k[1] = "receive"
     /\ LET i == s.info[r] fin == k[3] = 1 IN
        IF r \notin s.pend THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE /\ s' = IF ~fin THEN s
                     ELSE [s EXCEPT !.pend = @ \ {r}, !.res[r] = IF i.k = "sync" THEN ToString(k[4]) ELSE @]
             /\ st' = Then(t, IF i.k = "cb" THEN <<Call(i.e, "ans", 0, r, k[4])>>
                              ELSE IF i.k = "got" THEN <<Call(i.e, "got", 0, r, k[4])>> ELSE <<>>)
  \/ /\ k[1] = "wait"
     /\ \/ s.res[r] # "w" /\ st' = Over(t, s.res[r]) /\ UNCHANGED s
        \/ /\ s.res[r] = "w" /\ k[3] > 0 /\ now >= f.n + k[3]
           /\ st' = Go(t, <<Task("abort", r, 0, 0, 0)>>, "timeout") /\ UNCHANGED s
  \/ /\ k[1] = "abort"
     /\ IF r \notin s.pend THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE /\ s' = [s EXCEPT !.pend = @ \ {r}]
             /\ st' = ThenR(t, <<Task("aborts", r, 0, 0, 0)>>, IF f.op = "abort" THEN "ok" ELSE f.res)
  \/ /\ k[1] = "aborts"
     /\ IF r \notin s.live THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE s' = [s EXCEPT !.live = @ \ {r}] /\ st' = Then(t, <<Task("invalid", r, 0, 0, 0), Task("abcb", r, 0, 0, 0)>>)
  \/ /\ k[1] = "abcb" /\ UNCHANGED s
     /\ st' = Then(t, IF r \in DOMAIN s.acb THEN <<Call(0, "aborted", 0, s.acb[r], r)>> ELSE <<>>)

TaskNotice(t) ==
  LET f == Top(t) k == f.x[1] key == <<k[2], k[3]>> IN
  \* a first registration is made known to the server, which answers with the property
  \/ /\ k[1] = "rrecheck"
     /\ IF s.rav[k[3]] = 1 THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE LET c == s.cinfo[k[2]].k left == Without(Regs(c), k[2]) IN
             /\ s' = [s EXCEPT !.regs = Put(@, c, left), !.cinfo[k[2]].ok = FALSE,
                               !.cache = IF left = <<>> THEN Clear(@, c) ELSE @]
             /\ st' = Over(t, "unavail")
  \/ /\ k[1] = "subscribe"
     /\ s' = [s EXCEPT !.subs = @ \cup {key}]
     /\ st' = Then(t, IF IsStatus(k[3]) THEN <<Task("update", k[2], k[3], 0, 0)>> ELSE <<>>)
  \/ /\ k[1] = "update" /\ UNCHANGED s
     /\ st' = Then(t, IF key \notin DOMAIN s.prop THEN <<>>
                      ELSE <<Task("notify", k[2], k[3], Prop(key)[1], Prop(key)[2]),
                             Task("recast", k[2], k[3], Prop(key)[1], Prop(key)[2])>>)
  \/ /\ k[1] = "cached" /\ UNCHANGED s
     /\ LET c == s.cinfo[k[2]] v == Cached(c.k) IN
        st' = Then(t, IF c.k \notin DOMAIN s.cache \/ v[2] = k[3] THEN <<>>
                      ELSE <<Call(c.e, "note", 0, k[2], v[1]), Task("cached", k[2], v[2], 0, 0)>>)
  \/ /\ k[1] = "unsub?"
     /\ IF s.rav[k[2]] = 0 THEN st' = Over(t, "unavail") /\ UNCHANGED s
        ELSE st' = Then(t, <<Task("unsub", k[2], k[3], 0, 0)>>) /\ UNCHANGED s
  \/ /\ k[1] = "unsub"
     /\ s' = [s EXCEPT !.subs = @ \ {key}] /\ st' = Then(t, <<Task("resub", k[2], k[3], 0, 0)>>)
  \* somebody registered meanwhile
  \/ /\ k[1] = "resub" /\ UNCHANGED s
     /\ st' = Then(t, IF Regs(key) = <<>> THEN <<>> ELSE <<Task("subscribe", k[2], k[3], 0, 0)>>)
  \* the server's own listeners, then the clients
  \/ /\ k[1] = "listen" /\ Free(key, t)
     /\ IF Get(s.lst, key, <<>>) = <<>> THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE s' = [s EXCEPT !.lown = Put(@, key, t)] /\ st' = Then(t, <<Task("tellnext", k[2], k[3], k[4], 0)>>)
  \/ /\ k[1] = "tellnext"
     /\ LET l == SelectSeq(s.lst[key], LAMBDA y : y[3] > k[5]) IN
        IF l = <<>> THEN s' = [s EXCEPT !.lown = Put(@, key, -1)] /\ st' = Then(t, <<>>)
        ELSE /\ UNCHANGED s
             /\ st' = Then(t, <<Call(l[1][2], "heard", k[3], l[1][1], k[4]),
                                Task("tellnext", k[2], k[3], k[4], l[1][3])>>)
  \/ /\ k[1] = "cast" /\ UNCHANGED s
     /\ st' = Then(t, (IF key \in s.subs THEN <<Task("notify", k[2], k[3], k[4], k[5])>> ELSE <<>>) \o
                      (IF IsStatus(k[3]) THEN <<Task("recast", k[2], k[3], k[4], k[5])>> ELSE <<>>))
  \* the property may have changed meanwhile
  \/ /\ k[1] = "recast" /\ UNCHANGED s
     /\ st' = Then(t, IF Prop(key)[2] = k[5] THEN <<>> ELSE <<Task("cast", k[2], k[3], Prop(key)[1], Prop(key)[2])>>)
  \/ /\ k[1] = "notify"
     /\ LET l == Regs(key) IN
        /\ s' = IF l = <<>> \/ ~IsStatus(k[3]) THEN s
                ELSE IF k[4] = -1 THEN [s EXCEPT !.cache = Clear(@, key)]
                ELSE [s EXCEPT !.cache = Put(@, key, <<k[4], k[5]>>)]
        /\ st' = Then(t, Calls(l, "note", k[4]))

TaskAvail(t) ==
  LET f == Top(t) k == f.x[1] p == k[2] n == k[2] IN
  \/ /\ k[1] = "avail"
     /\ IF s.rav[p] = k[3] THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE IF k[3] = 1 /\ k[4] = 0        \* values from before are forgotten
        THEN /\ s' = [s EXCEPT !.cache = [i \in {j \in DOMAIN @ : j[1] # p} |-> @[i]]]
             /\ st' = Then(t, <<Task("avail", p, 1, 1, 0)>>)
        ELSE /\ s' = [s EXCEPT !.rav[p] = k[3]]
             /\ st' = Then(t, IF p \notin s.rq THEN <<>>
                              ELSE (IF k[3] = 0 THEN <<Task("lose", p, 0, 0, 0), Task("forget", p, 0, 0, 0)>> ELSE <<>>)
                                   \o <<Task("tellall", p, k[3], 1 - k[3], 0)>>)
  \* the requests are given up together, who waits learns it one by one
  \/ /\ k[1] = "lose" /\ s' = [s EXCEPT !.pend = @ \ Of(p)] /\ st' = Then(t, <<<<"breaks", Of(p), 0, 0, 0>>>>)
  \/ /\ k[1] = "breaks"
     /\ LET w == {r \in k[2] : s.res[r] = "w" /\ s.info[r].k = "sync"} IN
        IF w = {} THEN UNCHANGED s /\ st' = Then(t, <<>>)
        ELSE \E r \in w : s' = [s EXCEPT !.res[r] = "broken"] /\ st' = Then(t, <<<<"breaks", w \ {r}, 0, 0, 0>>>>)
  \/ /\ k[1] = "forget"
     /\ s' = [s EXCEPT !.regs = [i \in {j \in DOMAIN @ : j[1] # p} |-> @[i]]]
     /\ st' = Then(t, <<>>)
  \/ /\ k[1] = "tellall" /\ UNCHANGED s
     /\ st' = Then(t, [i \in DOMAIN s.obs[p] |-> Task("tell", s.obs[p][i], k[3], k[4], 0)])
  \* tell observer n that the status is k[3] and was k[4]
  \/ /\ k[1] = "tell"
     /\ LET o == s.oinfo[n] IN
        IF o.k = 2 THEN s' = [s EXCEPT !.sg[n] = k[3]] /\ st' = Then(t, <<>>)
        ELSE IF o.e = 3 THEN s' = [s EXCEPT !.obs[o.p] = Without(@, n)] /\ st' = Then(t, <<>>)
        ELSE st' = Then(t, <<Call(o.e, "avail", k[4], n, k[3])>>) /\ UNCHANGED s
  \* it may have changed while the new observer was being told
  \/ /\ k[1] = "still" /\ UNCHANGED s
     /\ st' = Then(t, IF s.rav[k[3]] = k[4] THEN <<>>
                      ELSE <<Task("tell", n, 1 - k[4], k[4], 0), Task("still", n, k[3], 1 - k[4], 0)>>)

TaskCall(t) ==
  LET f == Top(t) k == f.x[1] IN
  \/ /\ k[1] = "dl" /\ k[2] \in 1..2
     /\ s' = [s EXCEPT !.exq[k[2]] = Append(@, <<k[3], k[4], k[5], k[6]>>)] /\ st' = Then(t, <<>>)
  \/ /\ k[1] = "dl" /\ k[2] = 3
     /\ IF k[3] = "handler" THEN s' = [s EXCEPT !.rob[k[4]] = "gone"] /\ st' = Then(t, <<Task("drop", k[4], 0, 0, 0)>>)
        ELSE UNCHANGED s /\ st' = Then(t, <<>>)
  \/ /\ k[1] = "drain" /\ s.exq[k[2]] = <<>> /\ st' = Then(t, <<>>) /\ UNCHANGED s

Lin(t) ==
  /\ InCall(t)
  /\ \/ Top(t).ph = "called" /\ (LinClient(t) \/ LinSigWait(t) \/ LinServer(t))
     \/ Top(t).ph = "run" /\ (TaskRequest(t) \/ TaskNotice(t) \/ TaskAvail(t) \/ TaskCall(t))
  /\ UNCHANGED now
\* steps no other thread can see
Local(t) == Top(t).ph = "run" /\ (Top(t).x[1][1] = "dl" /\ Top(t).x[1][2] = 3 /\ Top(t).x[1][3] # "handler")

BeginOK(t, op, p, a, b) ==
  LET f == Top(t) IN
  /\ f.ph = "run"
  /\ \/ f.x[1] = Call(0, op, p, a, b)
     \/ f.x[1][1] = "drain" /\ s.exq[f.x[1][2]] # <<>> /\ s.exq[f.x[1][2]][1] = <<op, p, a, b>>
DoBegin(t, op, p, a, b) ==
  /\ InCall(t) /\ BeginOK(t, op, p, a, b)
  /\ LET f == Top(t)
         drain == f.x[1][1] = "drain"
         f2 == IF drain THEN f ELSE [f EXCEPT !.x = Tail(@)]
         s1 == IF drain THEN [s EXCEPT !.exq[f.x[1][2]] = Tail(@)] ELSE s
     IN /\ st' = [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1) \o <<f2, BodyFrame(op, p, a, b)>>]
        /\ s' = IF op = "handler" THEN [s1 EXCEPT !.rob[p] = "run"] ELSE s1
DoEnd(t, op, p, a, b, r) ==
  /\ IsTopBody(t, op, p, a, b)
  /\ LET n == Len(st[t])
         u == Under(t)
         x == (IF op = "handler" THEN <<Task("release", p, 0, 0, 0)>> ELSE <<>>) \o u.x
     IN /\ st' = [st EXCEPT ![t] = Append(SubSeq(@, 1, n - 2),
                     [u EXCEPT !.x = x, !.ph = IF x = <<>> THEN "done" ELSE "run"])]
        /\ UNCHANGED s

Blocked(t) ==
  LET f == Top(t) IN
  /\ InCall(t)
  /\ \/ /\ f.ph = "run" /\ f.x[1][1] = "wait" /\ s.res[f.x[1][2]] = "w"
        /\ f.x[1][3] > 0 => now < f.n + f.x[1][3]
     \/ f.ph = "run" /\ f.x[1][1] = "listen" /\ ~Free(<<f.x[1][2], f.x[1][3]>>, t)
     \/ f.ph = "called" /\ f.op = "hear" /\ ~Free(<<Ssid(f), f.b>>, t)
     \/ f.ph = "called" /\ f.op = "unhear" /\ \E k \in Hears(f.a) : ~Free(k, t)
     \/ /\ f.ph = "called" /\ f.op = "sigwait" /\ ~SigReady(f)
        /\ SigTimeout(f) > 0 => now < f.n + SigTimeout(f)
Quiet == \A t \in Threads : Idle(t) \/ Blocked(t)
=============================================================================
