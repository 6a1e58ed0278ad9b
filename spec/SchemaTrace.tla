----------------------------- MODULE SchemaTrace -----------------------------
(* Judges what the generator did with schemas: whether it accepted them, the schema texts it stored       *)
(* (parsed back into definitions), whether those are accepted and stored again as they are, and which      *)
(* texts of two related schemas are the same.                                                              *)
EXTENDS Schema, Json
VARIABLES l
Trace == ndJsonDeserialize("trace.ndjson")

Ordered(sch, T, got) ==
    /\ \A i, j \in DOMAIN got : got[i].p = got[j].p => i = j
    /\ \A i, j \in DOMAIN got : got[i].p \in Direct(sch, T, got[j].p) => i < j
StoredBad(sch, T, s) ==
    (IF ToSet(s.got) = Stored(sch, T, s.p, s.res) THEN {} ELSE {"definitions"})
    \cup (IF s.res # "" \/ ToSet(s.got) # Stored(sch, T, s.p, s.res) \/ Ordered(sch, T, s.got) THEN {} ELSE {"order"})
One(r) ==
    IF r.ok # Valid(r.sch) THEN {IF r.ok THEN "accepted" ELSE "rejected"}
    ELSE IF ~r.ok THEN {}
    ELSE LET T == TLCEval(Tree(r.sch)) IN UNION {StoredBad(r.sch, T, r.stored[i]) : i \in DOMAIN r.stored}
\* texts of two schemas are the same exactly when they mean the same
Two(r) ==
    LET T == TLCEval(Tree(r.sch)) U == TLCEval(Tree(r.other)) IN
    {IF r.same[i].same THEN "same_text" ELSE "other_text" :
        i \in {j \in DOMAIN r.same : LET s == r.same[j] IN
               s.same # (Stored(r.sch, T, s.p, s.res) = Stored(r.other, U, s.p, s.res))}}
\* what was stored for an archive is accepted and stored again as it is
AgainBad(r) == IF r.again THEN {} ELSE {IF Inside(r.sch, TLCEval(Tree(r.sch)), r.p) THEN "self_contained" ELSE "crossing_reference"}
\* on the command line: output exactly when the schema is accepted
CliBad(r) == LET v == Valid(r.sch) IN
    (IF r.ok # v THEN {IF r.ok THEN "accepted" ELSE "rejected"} ELSE {}) \cup (IF r.made # r.ok THEN {"output"} ELSE {})
Bad(r) == CASE r.k = "one" -> One(r) [] r.k = "two" -> Two(r) [] r.k = "again" -> AgainBad(r) [] OTHER -> CliBad(r)

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Bad(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b]))
             /\ l' = l + 1
             /\ IF l = Len(Trace) THEN PrintT("@@" \o ToJson([done |-> l])) ELSE TRUE
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
