------------------------------ MODULE Serial ------------------------------
(* What serialised data looks like, and what reading it gives.             *)
(* Shapes: [k, w] numbers, [k, e] sequences, sets, maps, pointers,         *)
(* [k, es] tuples and variants. Values are nested sequences of bytes:      *)
(*   num, bool   the bytes, lowest first       str  the characters         *)
(*   seq, set, bag, map   the elements         tup  one value per member   *)
(*   ptr   <<>> or <<value>>                   var  <<<<index>>, value>>   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE Enc(_, _), Dec(_, _, _), Eq(_, _, _), Ok(_, _), Size(_, _)

U32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Num(b, p) == b[p] + 256 * b[p + 1] + 65536 * b[p + 2] + 16777216 * b[p + 3]

Cat(ss) == FlattenSeq(ss)
Many == {"seq", "set", "bag", "map"}

\* the bytes of a value
Enc(s, v) ==
  CASE s.k \in {"num", "bool"} -> v
    [] s.k = "str" -> U32(Len(v)) \o v
    [] s.k \in Many -> U32(Len(v)) \o Cat([i \in 1..Len(v) |-> Enc(s.e, v[i])])
    [] s.k = "tup" -> Cat([i \in 1..Len(v) |-> Enc(s.es[i], v[i])])
    [] s.k = "ptr" -> IF v = <<>> THEN <<0>> ELSE <<1>> \o Enc(s.e, v[1])
    [] s.k = "var" -> U32(v[1][1]) \o Enc(s.es[v[1][1] + 1], v[2])

\* announced size; -1: not announced (variants)
Size(s, v) ==
  LET sum(ns) == IF \E i \in 1..Len(ns) : ns[i] = -1 THEN -1 ELSE FoldSeq(LAMBDA x, y : x + y, 0, ns)
  IN CASE s.k \in {"num", "bool"} -> s.w
       [] s.k = "str" -> 4 + Len(v)
       [] s.k \in Many -> IF s.e.k = "var" THEN -1 ELSE sum(<<4>> \o [i \in 1..Len(v) |-> Size(s.e, v[i])])
       [] s.k = "tup" -> sum([i \in 1..Len(v) |-> Size(s.es[i], v[i])])
       [] s.k = "ptr" -> IF v = <<>> THEN 1 ELSE sum(<<1, Size(s.e, v[1])>>)
       [] s.k = "var" -> -1

\* reading from position p of b on: [ok, v, p]
Fail == [ok |-> FALSE]
Dec(s, b, p) ==
  LET have(n) == p + n - 1 <= Len(b)
      many(shapes, n, q) ==          \* n values one after another
        LET RECURSIVE go(_, _, _)
            go(i, q0, acc) == IF i > n THEN [ok |-> TRUE, v |-> acc, p |-> q0]
                              ELSE LET d == Dec(shapes[i], b, q0)
                                   IN IF d.ok THEN go(i + 1, d.p, Append(acc, d.v)) ELSE Fail
        IN go(1, q, <<>>)
  IN CASE s.k \in {"num", "bool"} ->
            IF have(s.w) THEN [ok |-> TRUE, v |-> SubSeq(b, p, p + s.w - 1), p |-> p + s.w] ELSE Fail
       [] s.k = "str" ->
            IF ~have(4) THEN Fail
            ELSE LET n == Num(b, p)
                 IN IF have(4 + n) THEN [ok |-> TRUE, v |-> SubSeq(b, p + 4, p + 3 + n), p |-> p + 4 + n] ELSE Fail
       [] s.k \in Many ->
            IF ~have(4) THEN Fail
            ELSE LET n == Num(b, p) IN many([i \in 1..n |-> s.e], n, p + 4)
       [] s.k = "tup" -> many(s.es, Len(s.es), p)
       [] s.k = "ptr" ->
            IF ~have(1) THEN Fail
            ELSE IF b[p] = 0 THEN [ok |-> TRUE, v |-> <<>>, p |-> p + 1]
            ELSE LET d == Dec(s.e, b, p + 1) IN IF d.ok THEN [d EXCEPT !.v = <<d.v>>] ELSE Fail
       [] s.k = "var" ->
            IF ~have(4) THEN Fail
            ELSE LET i == Num(b, p)
                 IN IF i >= Len(s.es) THEN Fail
                    ELSE LET d == Dec(s.es[i + 1], b, p + 4)
                         IN IF d.ok THEN [d EXCEPT !.v = <<<<i>>, d.v>>] ELSE Fail

\* equal values: the order of the elements of sets and maps does not matter
Eq(s, a, c) ==
  CASE s.k \in {"num", "bool", "str"} -> a = c
    [] s.k = "seq" -> Len(a) = Len(c) /\ \A i \in 1..Len(a) : Eq(s.e, a[i], c[i])
    [] s.k \in {"set", "map", "bag"} ->
         /\ Len(a) = Len(c)
         /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : Eq(s.e, a[i], a[j])})
                                   = Cardinality({j \in 1..Len(c) : Eq(s.e, a[i], c[j])})
    [] s.k = "tup" -> Len(a) = Len(c) /\ \A i \in 1..Len(a) : Eq(s.es[i], a[i], c[i])
    [] s.k = "ptr" -> Len(a) = Len(c) /\ (a # <<>> => Eq(s.e, a[1], c[1]))
    [] s.k = "var" -> a[1] = c[1] /\ Eq(s.es[a[1][1] + 1], a[2], c[2])

\* v is a value of shape s
Ok(s, v) ==
  CASE s.k \in {"num", "bool"} -> Len(v) = s.w /\ \A i \in 1..s.w : v[i] \in (IF s.k = "bool" THEN 0..1 ELSE 0..255)
    [] s.k = "str" -> \A i \in 1..Len(v) : v[i] \in 0..255
    [] s.k \in {"seq", "bag"} -> \A i \in 1..Len(v) : Ok(s.e, v[i])
    [] s.k = "set" -> \A i \in 1..Len(v) : Ok(s.e, v[i]) /\ \A j \in 1..(i - 1) : ~Eq(s.e, v[i], v[j])
    [] s.k = "map" -> \A i \in 1..Len(v) : Ok(s.e, v[i]) /\ \A j \in 1..(i - 1) : ~Eq(s.e.es[1], v[i][1], v[j][1])
    [] s.k = "tup" -> Len(v) = Len(s.es) /\ \A i \in 1..Len(v) : Ok(s.es[i], v[i])
    [] s.k = "ptr" -> v = <<>> \/ (Len(v) = 1 /\ Ok(s.e, v[1]))
    [] s.k = "var" -> v[1][1] \in 0..(Len(s.es) - 1) /\ Ok(s.es[v[1][1] + 1], v[2])

---------------------------------------------------------------------------
(* A stream: values written one after another, read from some prefix of    *)
(* the bytes. What was not all there is refused, and nothing after it.     *)
Bytes(shapes, vs) == Cat([i \in 1..Len(vs) |-> Enc(shapes[i], vs[i])])
End(shapes, vs, i) == Len(Bytes(shapes, SubSeq(vs, 1, i)))
Readable(shapes, vs, n) == Cardinality({i \in 1..Len(vs) : End(shapes, vs, i) <= n})

---------------------------------------------------------------------------
(* Values to try for a shape                                               *)
RECURSIVE Some(_)
Fill(w, x) == [i \in 1..w |-> x]
Some(s) ==
  CASE s.k = "bool" -> <<<<0>>, <<1>>>>
    [] s.k = "num" -> <<Fill(s.w, 0), [i \in 1..s.w |-> i], Fill(s.w, 255), [i \in 1..s.w |-> IF i = s.w THEN 128 ELSE 0]>>
    [] s.k = "str" -> <<<<>>, <<65>>, <<0, 255, 10>>, Fill(12, 7)>>
    [] s.k \in Many ->
         LET u == IF Len(Some(s.e)) > 5 THEN SubSeq(Some(s.e), 1, 5) ELSE Some(s.e)
             all == <<<<>>>> \o [i \in 1..Len(u) |-> <<u[i]>>]
                    \o [i \in 1..Len(u) |-> <<u[i], u[(i % Len(u)) + 1]>>]
                    \o <<<<u[1], u[1]>>, u>>
         IN SelectSeq(all, LAMBDA v : Ok(s, v))
    [] s.k = "tup" ->
         LET us == [i \in 1..Len(s.es) |-> Some(s.es[i])]
             pick(i, k) == us[i][(k % Len(us[i])) + 1]
             diag == [k \in 1..6 |-> [i \in 1..Len(us) |-> pick(i, k + i)]]
             one == Cat([j \in 1..Len(us) |-> [k \in 1..Len(us[j]) |->
                       [i \in 1..Len(us) |-> IF i = j THEN us[i][k] ELSE pick(i, 1)]]])
         IN diag \o one
    [] s.k = "ptr" -> <<<<>>>> \o [i \in 1..Len(Some(s.e)) |-> <<Some(s.e)[i]>>]
    [] s.k = "var" -> Cat([j \in 1..Len(s.es) |-> [k \in 1..Len(Some(s.es[j])) |-> <<<<j - 1>>, Some(s.es[j])[k]>>]])
============================================================================
