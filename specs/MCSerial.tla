------------------------------ MODULE MCSerial ------------------------------
(* For every shape of the driver and every value Some() lists: reading what *)
(* was written gives the value, no matter what follows, and no proper       *)
(* prefix is read. The values are the test cases for the real code.         *)
EXTENDS Serial, Json, IOUtils, TLC
Shapes == ndJsonDeserialize(IOEnv.SHAPES)
VARIABLES t, i, vs
vars == <<t, i, vs>>
Init == t \in 1..Len(Shapes) /\ i = 1 /\ vs = Some(Shapes[t])
Next == i < Len(vs) /\ i' = i + 1 /\ UNCHANGED <<t, vs>>
Spec == Init /\ [][Next]_vars

S == Shapes[t]
V == vs[i]
B == Enc(S, V)
TypeOK == Ok(S, V)
Written == \A j \in 1..Len(B) : B[j] \in 0..255
ReadBack == \A tail \in {<<>>, <<0>>, <<1, 2, 3>>} :
              LET d == Dec(S, B \o tail, 1) IN d.ok /\ Eq(S, d.v, V) /\ d.v = V /\ d.p = Len(B) + 1
InPlace == LET d == Dec(S, <<9, 9>> \o B, 3) IN d.ok /\ d.v = V
Truncated == Len(B) < 600 => \A n \in 0..(Len(B) - 1) : ~Dec(S, SubSeq(B, 1, n), 1).ok
Announced == Size(S, V) \in {-1, Len(B)}
\* different values are written differently (as far as they differ)
Injective == \A j \in 1..(i - 1) : Enc(S, vs[j]) = B => Eq(S, vs[j], V)
Emit == PrintT(<<"CASE", ToJson(t - 1), ToJson(V)>>)
=============================================================================
