----------------------------- MODULE SerialTrace -----------------------------
(* Each line: values the real code wrote (v) of shapes (s), the bytes it     *)
(* wrote, the sizes it announced, and what it read from each prefix.         *)
EXTENDS Serial, Json, IOUtils, TLC
Lines == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES l
Init == l = 0
Next == l < Len(Lines) /\ l' = l + 1
Spec == Init /\ [][Next]_l

L == Lines[l]
Good ==
  LET s == L.s v == L.v b == Bytes(s, v)
      ends == [i \in 1..Len(v) |-> End(s, v, i)]
      \* a whole message is one value
      want(n) == IF L.kind = 9 THEN (IF n = Len(b) THEN 1 ELSE 0)
                 ELSE Cardinality({i \in 1..Len(v) : ends[i] <= n})
  IN CASE \E i \in 1..Len(v) : ~Ok(s[i], v[i]) -> "value"
       [] b # L.bytes -> "bytes"
       [] L.kind # 9 /\ \E i \in 1..Len(v) : L.size[i] # Size(s[i], v[i]) -> "size"
       [] Len(L.cuts) # Len(b) + 1 -> "cuts"
       [] \E n \in 0..Len(b) : L.cuts[n + 1] # <<want(n), 0>> -> "read"
       [] \E i \in 1..Len(L.wrong) :
            LET w == L.wrong[i]
            IN w[1] = 0 \/ (IF L.kind = 9
                            THEN Len(w[2]) # Len(v) \/ \E j \in 1..Len(v) : ~Eq(s[j], w[2][j], v[j])
                            ELSE ~Ok(s[w[1]], w[2]) \/ ~Eq(s[w[1]], w[2], v[w[1]])) -> "wrong"
       [] OTHER -> "ok"
Report == l = 0 \/ LET g == Good IN g = "ok" \/ PrintT(<<"REJECTED", l, g>>)
=============================================================================
