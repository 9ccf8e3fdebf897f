-------------------------------- MODULE Keys --------------------------------
(* Identifier managers (1: 64 bits, 2: 8 bits, 3: through RegID) and the keys clients are   *)
(* looked up by (4: Address, 5: RegID).  Keys are 0..8: component pairs (k \div 3, k % 3);   *)
(* component value 2 of the number, and 0 of the text, is the invalid one.                   *)
EXTENDS Calls

Mgrs == 1..3
KeyKinds == 4..5
Keys == 0..8
Num2(k) == k % 3        \* port / request id
Text(k) == k \div 3     \* name / operation
Valid(p, k) == IF p = 4 THEN Num2(k) # 2 \/ Text(k) # 0 ELSE Num2(k) # 2 /\ Text(k) # 0
\* how many different identifiers there are
Total(p) == IF p = 2 THEN 255 ELSE 1000000

Init == InitCalls /\ s = [started |-> [p \in Mgrs |-> 0], used |-> [p \in Mgrs |-> IF p = 2 THEN [v \in 0..254 |-> 0] ELSE <<>>],
                          lt |-> [p \in KeyKinds |-> {}], set |-> [p \in KeyKinds |-> {}]]

\* what is known about the order, closed under transitivity
Known(p, a, b) == <<a, b>> \in s.lt[p]
Learn(p, a, b) == TLCEval(s.lt[p] \cup {<<x, y>> \in Keys \X Keys :
                                   (x = a \/ Known(p, x, a)) /\ (y = b \/ Known(p, b, y))})

Lin(t) ==
  LET f == Top(t)
      p == f.p
  IN
  /\ InCall(t)
  /\ \/ /\ f.ph = "allocating" /\ Len(f.x) = f.a        \* all that was asked for was handed out
        /\ st' = Done(t, "void") /\ UNCHANGED s
     \/ /\ f.op = "alloc" /\ f.ph = "called"
        /\ s' = [s EXCEPT !.started[p] = @ + f.a]
        /\ st' = Ph(t, "allocating")
     \/ /\ f.ph = "called" /\ f.op = "reclaim" /\ UNCHANGED s /\ st' = Done(t, "void")
     \/ /\ f.ph = "called" /\ f.op = "lt" /\ f.a # f.b /\ ~Known(p, f.b, f.a)
        /\ s' = [s EXCEPT !.lt[p] = Learn(p, f.a, f.b)]
        /\ st' = Done(t, "true")
     \/ /\ f.ph = "called" /\ f.op = "lt" /\ ~Known(p, f.a, f.b)
        /\ s' = IF f.a = f.b THEN s ELSE [s EXCEPT !.lt[p] = Learn(p, f.b, f.a)]
        /\ st' = Done(t, "false")
     \/ /\ f.ph = "called" /\ f.op = "eq" /\ UNCHANGED s /\ st' = Done(t, Bool(f.a = f.b))
     \/ /\ f.ph = "called" /\ f.op = "ne" /\ UNCHANGED s /\ st' = Done(t, Bool(f.a # f.b))
     \/ /\ f.ph = "called" /\ f.op = "valid" /\ UNCHANGED s /\ st' = Done(t, Bool(Valid(p, f.a)))
     \* a key moved from is no longer valid, what it was moved into equals what it was
     \/ /\ f.ph = "called" /\ f.op = "move" /\ UNCHANGED s /\ st' = Done(t, "equal " \o Bool(Valid(p, f.a)) \o " false")
     \/ /\ f.ph = "called" /\ f.op = "put" /\ s' = [s EXCEPT !.set[p] = @ \cup {f.a}]
        /\ st' = Done(t, Bool(f.a \notin s.set[p]))
     \/ /\ f.ph = "called" /\ f.op = "has" /\ UNCHANGED s /\ st' = Done(t, Bool(f.a \in s.set[p]))
     \/ /\ f.ph = "called" /\ f.op = "del" /\ s' = [s EXCEPT !.set[p] = @ \ {f.a}]
        /\ st' = Done(t, Bool(f.a \in s.set[p]))
     \/ /\ f.ph = "called" /\ f.op = "size" /\ UNCHANGED s /\ st' = Done(t, ToString(Cardinality(s.set[p])))
  /\ UNCHANGED now

Local(t) == Top(t).ph = "allocating" /\ Len(Top(t).x) = Top(t).a

Blocked(t) == FALSE
Quiet == \A t \in Threads : Idle(t)

Times(p, v) == Get(s.used[p], v, 0)
\* identifiers come again only after all of them were used
Fresh(p, v) == v >= 0 /\ v < Total(p) /\ Times(p, v) < (s.started[p] + Total(p) - 1) \div Total(p)
DoBegin(t, op, p, a, b) ==
  /\ op = "got" /\ InCall(t) /\ Top(t).op = "alloc" /\ Top(t).ph = "allocating"
  /\ Len(Top(t).x) < Top(t).a
  /\ Top(t).p = p /\ b = 0 /\ Fresh(p, a)
  /\ s' = [s EXCEPT !.used[p] = IF a \in DOMAIN @ THEN [@ EXCEPT ![a] = @ + 1] ELSE Put(@, a, 1)]
  /\ st' = [st EXCEPT ![t] = Append([@ EXCEPT ![Len(@)].x = Append(@, a)], BodyFrame(op, p, a, b))]
DoEnd(t, op, p, a, b, r) ==
  /\ InBody(t) /\ Top(t).op = op /\ Top(t).a = a
  /\ st' = EndBody(t, "allocating") /\ UNCHANGED s
=============================================================================
