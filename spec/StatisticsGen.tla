---------------------------- MODULE StatisticsGen ----------------------------
(* Histories of a few mappings and reads. *)
EXTENDS Statistics, Json
CONSTANTS MaxOps, EmitFrom
\* begins, sizes, and the size of structures in them
Maps == JsonDeserialize("maps.json")
VARIABLES st, hist
vars == <<st, hist>>
M == DOMAIN Maps
Reads(m) == {[op |-> "read", at |-> Maps[m].at + r[1], n |-> r[2], pos |-> r[3], size |-> r[4]] : r \in ToSet(Maps[m].reads)}
Ops == {[op |-> "register", name |-> Maps[m].name, at |-> Maps[m].at, size |-> Maps[m].size] : m \in M}
       \cup {[op |-> "deregister", at |-> Maps[m].at, size |-> Maps[m].size] : m \in M}
       \cup UNION {Reads(m) : m \in M} \cup {[op |-> "clear"]}
Init == st = Stats0 /\ hist = <<>>
\* a mapping has the size it was first registered with; ends of what was not registered are rare
Next == Len(hist) < MaxOps /\ \E o \in Ops : st' = Apply(st, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
NextRandom == /\ Len(hist) < MaxOps
              /\ \E k \in {RandomElement({"register", "deregister", "read", "read", "read2", "read3", "read4", "read5"} \cup (IF RandomElement(1..12) = 1 THEN {"clear"} ELSE {}))} :
                 \E o \in {RandomElement({o \in Ops : o.op = (IF k \in {"read2", "read3", "read4", "read5"} THEN "read" ELSE k)})} :
                 st' = Apply(st, o) /\ hist' = Append(hist, o)
SpecRandom == Init /\ [][NextRandom]_vars
Emit == IF Len(hist) < EmitFrom THEN TRUE ELSE PrintT("@@" \o ToJson([hist |-> hist]))
\* nothing is counted outside a mapping; what is closed stays as it is until everything is cleared
Inside == \A m \in DOMAIN st.open : st.open[m].bytes \subseteq 0..(st.open[m].size - 1)
\* reads that follow each other may be made in any order, by anybody
ReadOps == UNION {Reads(m) : m \in M}
Commute == \A x \in ReadOps, y \in ReadOps : Apply(Apply(st, x), y) = Apply(Apply(st, y), x)
Kept == [][hist'[Len(hist')].op # "clear" => IsPrefix(st.closed, st'.closed)]_vars
Grows == [][hist'[Len(hist')].op = "read" => /\ st'.stray >= st.stray
             /\ DOMAIN st'.open = DOMAIN st.open
             /\ \A m \in DOMAIN st.open : st.open[m].bytes \subseteq st'.open[m].bytes]_vars
===============================================================================
