------------------------------- MODULE Calls -------------------------------
(* What all specifications of interfaces share: threads make calls, a call takes effect   *)
(* in one or more internal steps between its call and its return, and callbacks (bodies)   *)
(* run inside calls.  A specification adds its own state s and says what the internal      *)
(* steps are.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Threads == 0..15

VARIABLES
  st,    \* thread -> stack of frames: calls, and bodies running inside them
  s,     \* the state of the objects
  now    \* virtual time (ms)

\* ph: progress of the call; x: what the call has to remember; body: a callback's frame
Frame(op, p, a, b) ==
  [op |-> op, p |-> p, a |-> a, b |-> b, ph |-> "called", res |-> "", n |-> now,
   body |-> FALSE, x |-> <<>>]

InitCalls == st = [t \in Threads |-> <<>>] /\ now = 0

Top(t) == st[t][Len(st[t])]
Idle(t) == st[t] = <<>>
InCall(t) == ~Idle(t) /\ ~Top(t).body
InBody(t) == ~Idle(t) /\ Top(t).body
SetTop(t, f) == [st EXCEPT ![t][Len(st[t])] = f]
Push(t, f) == [st EXCEPT ![t] = Append(@, f)]
Pop(t) == [st EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
\* the frame below the top one
Under(t) == st[t][Len(st[t]) - 1]

Done(t, r) == SetTop(t, [Top(t) EXCEPT !.ph = "done", !.res = r])
Ph(t, ph) == SetTop(t, [Top(t) EXCEPT !.ph = ph])
PhX(t, ph, x) == SetTop(t, [Top(t) EXCEPT !.ph = ph, !.x = x])

Bool(b) == IF b THEN "true" ELSE "false"
Matches(r, actual) == r = "*" \/ r = actual
Put(f, k, v) == (k :> v) @@ f
Get(f, k, default) == IF k \in DOMAIN f THEN f[k] ELSE default
Without(q, c) == SelectSeq(q, LAMBDA y : y # c)
Range(q) == {q[i] : i \in DOMAIN q}

DoCall(t, op, p, a, b) ==
  /\ ~InCall(t)
  /\ st' = Push(t, Frame(op, p, a, b))
  /\ UNCHANGED s

DoRet(t, op, p, a, b, r) ==
  /\ InCall(t)
  /\ LET f == Top(t) IN
       /\ f.op = op /\ f.p = p /\ f.a = a /\ f.b = b
       /\ f.ph = "done" /\ Matches(f.res, r)
  /\ st' = Pop(t)
  /\ UNCHANGED s

\* a callback (op, p, a, b) begins in thread t: pushes its frame
BodyFrame(op, p, a, b) == [Frame(op, p, a, b) EXCEPT !.body = TRUE]

\* the callback on top ends; the frame below goes to phase ph
EndBody(t, ph) ==
  LET n == Len(st[t]) IN
  [st EXCEPT ![t] = Append(SubSeq(@, 1, n - 2), [@[n - 1] EXCEPT !.ph = ph])]
IsTopBody(t, op, p, a, b) ==
  InBody(t) /\ Top(t).op = op /\ Top(t).p = p /\ Top(t).a = a /\ Top(t).b = b
=============================================================================
