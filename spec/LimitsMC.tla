------------------------------- MODULE LimitsMC -------------------------------
(* Growing resources one element at a time: what the limit rule means.  The generator of cases: every   *)
(* archive with every small size; Emit prints those around a limit.                                     *)
EXTENDS Limits
CONSTANTS Most, Names
VARIABLES a, n
vars == <<a, n>>
Data == {i \in DOMAIN Archives[a] : Archives[a][i].kind \in {"vec", "multi", "raw"}}
Content == [nm \in {Archives[a][i].name : i \in Data} |-> [n |-> Small16(n[CHOOSE i \in Data : Archives[a][i].name = nm])]]
Init == a \in Names /\ n = [i \in Data |-> 0]
Next == \E i \in Data : n[i] < Most /\ n' = [n EXCEPT ![i] = @ + 1] /\ UNCHANGED a
Spec == Init /\ [][Next]_vars
\* admitted exactly if every referring field can hold the position of every element it may point at
Reach(i) == \A k \in DOMAIN Refs : (Refs[k].arch = a /\ Refs[k].res = Archives[a][i].name) =>
                LET w == Fields(Refs[k].s)[Refs[k].f].w IN \A p \in 0..(n[i] - 1) : w > 20 \/ p < 2 ^ w
Meaning == (\A i \in Data : Fits(a, i, Small16(n[i]))) <=> (\A i \in Data : Reach(i))
\* once too large, always too large; and each resource is judged by its own references alone
Refused == [][(\E i \in Data : ~Fits(a, i, Small16(n[i]))) => (\E i \in Data : ~Fits(a, i, Small16(n'[i])))]_vars
EmptyOpens == (\A i \in Data : n[i] = 0) => \A i \in Data : Fits(a, i, Small16(0))
=============================================================================
