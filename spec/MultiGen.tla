------------------------------ MODULE MultiGen ------------------------------
(* Histories of growing multivectors; Model.sets gives assignments per structure.                       *)
EXTENDS Multi
CONSTANTS MaxOps, MaxItems, MaxElems, Names
VARIABLES k, st, hist
vars == <<k, st, hist>>
Ops == {o \in ({[op |-> "mgrow"], [op |-> "mclose"]} \cup UNION {{[op |-> "madd", alt |-> a, sets |-> e] : e \in ToSet(Model.sets[Kinds[k].types[a]])} : a \in DOMAIN Kinds[k].types}) :
          /\ MLegal(st, o)
          /\ o.op = "mgrow" => Len(st.items) < MaxItems
          /\ o.op = "madd" => Len(st.items[Len(st.items)]) < MaxElems}
Init == k \in Names /\ st = MState0 /\ hist = <<>>
Do(o) == st' = MApply(k, st, o) /\ hist' = Append(hist, o) /\ UNCHANGED k
Next == Len(hist) < MaxOps /\ \E o \in Ops : (Len(hist) = MaxOps - 1 => o.op = "mclose") /\ Do(o)
Spec == Init /\ [][Next]_vars
Weight(o) == {o} \X (IF o.op = "mclose" THEN 1..1 ELSE IF o.op = "mgrow" THEN 1..8 ELSE 1..6)
NextRandom == /\ Len(hist) < MaxOps /\ st.open
              /\ IF Len(hist) = MaxOps - 1 THEN Do([op |-> "mclose"])
                 ELSE \E w \in {RandomElement(UNION {Weight(o) : o \in Ops})} : Do(w[1])
SpecRandom == Init /\ [][NextRandom]_vars
Emit == IF st.open THEN TRUE ELSE PrintT("@@" \o ToJson([k |-> k, hist |-> hist]))

\* reading the stored bytes back gives the items (Format's readers do not know what was written)
Res1 == [types |-> Kinds[k].types, iw |-> Kinds[k].iw]
RoundTrip == ~st.open => Items(Res1, StoredIndex(k, st.items), StoredData(k, st.items)) = SeenItems(st.items, TRUE)
IndexShape == LET o == OffsetList(k, st.items) IN
    /\ o[1] = 0 /\ o[Len(o)] = Len(StoredData(k, st.items)) /\ Len(o) = Len(st.items) + 1
    /\ \A i \in 1..(Len(o) - 1) : o[i] <= o[i + 1]
\* a step appends one item or one element of the last item and touches nothing else
AppendOnly == [][/\ Len(st'.items) \in {Len(st.items), Len(st.items) + 1}
                 /\ \A i \in 1..(Len(st.items) - 1) : st'.items[i] = st.items[i]
                 /\ Len(st.items) > 0 => IsPrefix(st.items[Len(st.items)], st'.items[Len(st.items)])]_vars
=============================================================================
