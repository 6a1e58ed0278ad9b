-------------------------------- MODULE FarMC --------------------------------
(* Digits count as numbers do, and a resource read through them shows the elements of its bytes.          *)
EXTENDS Far
CONSTANTS Places, Top
VARIABLES a, b, s, cut
vars == <<a, b, s, cut>>
Numbers == [1..Places -> 0..(Base - 1)]
All == Base ^ Places
D(n) == [k \in 1..Places |-> (n \div Base ^ (k - 1)) % Base]
\* a file of Top bytes, all different from zero between the cuts
Bytes == [k \in 1..Top |-> IF \E c \in cut : c[1] <= k /\ k < c[2] THEN 1 + ((37 * k) % 255) ELSE 0]
Parts == SetToSeq({[at |-> D(c[1] - 1), b |-> SubSeq(Bytes, c[1], c[2] - 1)] : c \in cut})
File == [len |-> D(Top), parts |-> Parts]
Cuts == {<<x, y>> \in (1..Top) \X (1..(Top + 1)) : x < y}
Apart(u, v) == u = v \/ u[2] <= v[1] \/ v[2] <= u[1]
Init == /\ a \in Numbers /\ b \in Numbers /\ s \in 0..5 /\ cut = {}
FileInit == /\ a = D(0) /\ b = D(0) /\ s = 0 /\ \E u \in Cuts, v \in Cuts : Apart(u, v) /\ u[1] <= v[1] /\ cut = {u, v}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
FileSpec == FileInit /\ [][Next]_vars
Counts == /\ Val(Times(a, s)) = (Val(a) * s) % All
          /\ Val(Plus(a, s)) = (Val(a) + s) % All
          /\ Val(Sum(a, b)) = (Val(a) + Val(b)) % All
          /\ Less(a, b) = (Val(a) < Val(b))
          /\ (AtMost(b, a) => Val(Minus(a, b)) = Val(a) - Val(b))
          /\ D(Val(a)) = a
\* elements found by position are those of the whole, for structures of every size
Found == \A S \in DOMAIN Structs : LET v == DecodeAll(S, Bytes) IN
             /\ Number(File, D(Len(v)), Size(S))
             /\ \A n \in 0..Top : (n # Len(v) => ~Number(File, D(n), Size(S)))
             /\ \A i \in DOMAIN v : Element(File, S, D(i - 1)) = v[i] /\ Inside(File, Times(D(i - 1), Size(S)), Size(S))
             /\ ~Inside(File, Times(D(Len(v)), Size(S)), Size(S))
=============================================================================
