------------------------------ MODULE ViewsGen ------------------------------
(* Histories over views: every short one, random long ones; the laws of sequences as invariants.        *)
EXTENDS Views, Json, FiniteSetsExt
CONSTANTS Counts, Overlap, MaxOps, EmitFrom
VARIABLES st, hist
vars == <<st, hist>>
Wid == <<"w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8", "w9">>
Iid == <<"i1", "i2", "i3", "i4", "i5", "i6">>
Free(ids, used) == IF Cardinality(used) < Len(ids) THEN {ids[Cardinality(used) + 1]} ELSE {RandomElement(ToSet(ids))}
UsedW == DOMAIN st.ws \cap ToSet(Wid)
N == IF st.ws = <<>> THEN 0 ELSE Max({st.ws[x].n : x \in DOMAIN st.ws})
Ops == LET W == DOMAIN st.ws I == DOMAIN st.its nw == Free(Wid, UsedW) ni == Free(Iid, I) IN
    {o \in
      {[op |-> k, id |-> x, src |-> s, a |-> a, b |-> b] : k \in {"wslice", "wrange"}, x \in nw, s \in W, a \in 0..N, b \in 0..N}
      \cup {[op |-> k, id |-> x, src |-> s, a |-> a] : k \in {"wbefore", "wafter", "wskip", "wskiplast"}, x \in nw, s \in W, a \in 0..N}
      \cup {[op |-> "wcopy", id |-> x, src |-> s] : x \in nw, s \in W}
      \cup {[op |-> "wnull", id |-> x] : x \in nw}
      \cup {[op |-> k, id |-> x, src |-> s] : k \in {"ibegin", "iend"}, x \in ni, s \in W}
      \cup {[op |-> k, id |-> x, src |-> s, a |-> a] : k \in {"iadd", "isub"}, x \in ni, s \in I, a \in (-N)..N}
      \cup {[op |-> k, id |-> x, a |-> a] : k \in {"iaddeq", "isubeq", "iderefs"}, x \in I, a \in (-N)..N}
      \cup {[op |-> k, id |-> x] : k \in {"iinc", "idec"}, x \in I}
      \cup {[op |-> "icopy", id |-> x, src |-> s] : x \in ni, s \in I}
      \cup {[op |-> k, id |-> x, src |-> s] : k \in {"ipinc", "ipdec"}, x \in I, s \in ni}
      \cup {[op |-> "icmp", id |-> x, src |-> s] : x \in I, s \in I}
     : Legal(st, o)}
Init == \E n \in Counts :
          LET l == [op |-> "wload", id |-> "b1", count |-> n] IN
          /\ st = VApply(VState0, l, Overlap)
          /\ hist = <<l>>
Do(o) == st' = VApply(st, o, Overlap) /\ hist' = Append(hist, o)
Next == Len(hist) <= MaxOps /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
\* pick the kind first, so that the kinds with many arguments do not crowd out the others
\* (reusing a random register once all are in use)
NextRandom == /\ Len(hist) <= MaxOps
              /\ LET A == Ops IN \E k \in {RandomElement({x.op : x \in A})} : \E o \in {RandomElement({x \in A : x.op = k})} : Do(o)
SpecRandom == Init /\ [][NextRandom]_vars
Emit == IF Len(hist) < EmitFrom THEN TRUE ELSE PrintT("@@" \o ToJson([hist |-> hist]))

\* ---- laws
Inside == \A x \in DOMAIN st.ws : LET v == st.ws[x] IN
            v.at >= 0 /\ v.n >= 0 /\ v.at + v.n + (IF v.sent THEN 1 ELSE 0) <= Room(st, v.buf)
Hidden == Overlap => \A x \in DOMAIN st.ws : LET v == st.ws[x] IN v.at + v.n <= (IF Room(st, v.buf) = 0 THEN 0 ELSE Room(st, v.buf) - 1)
Split == \A x \in DOMAIN st.ws : LET v == st.ws[x] IN
            \A p \in 0..v.n : Content(Slice(v, 0, p)) \o Content(Slice(v, p, v.n - p)) = Content(v)
Compose == \A x \in DOMAIN st.ws : LET v == st.ws[x] IN
            \A p \in 0..v.n : \A l \in 0..(v.n - p) : \A q \in 0..l :
                Slice(Slice(v, p, l), q, l - q) = Slice(v, p + q, l - q)
SubOf == \A x \in DOMAIN st.ws : LET v == st.ws[x] IN
            \A p \in 0..v.n : \A l \in 0..(v.n - p) : Content(Slice(v, p, l)) = SubSeq(Content(v), p + 1, p + l)
=============================================================================
