---------------------------- MODULE ContainersGen ----------------------------
(* Histories over containers; Model.sets gives assignments per structure.                               *)
EXTENDS Containers
CONSTANTS MaxOps, EmitFrom, MaxLen, Ids, Names,
          Kinds                            \* the operations used
VARIABLES S, st, hist
vars == <<S, st, hist>>
Vid == SubSeq(<<"v1", "v2", "v3">>, 1, Ids)
Sid == SubSeq(<<"s1", "s2", "s3">>, 1, Ids)
Xid == SubSeq(<<"x1", "x2", "x3">>, 1, Ids)
Sets == ToSet(Model.sets[S])
Single == ~Structs[S].range
OpsOf(k) ==
    LET V == DOMAIN st.vs Z == DOMAIN st.ss X == DOMAIN st.xs
        nv == ToSet(Vid) nz == IF Single THEN ToSet(Sid) ELSE {}
        ix == 0..(MaxLen - 1)
    IN {o \in
        CASE k = "vnew" -> {[op |-> k, id |-> x, n |-> n] : x \in nv, n \in 0..2}
          [] k = "vdefault" -> {[op |-> k, id |-> x] : x \in nv}
          [] k = "vcopy" -> {[op |-> k, id |-> x, src |-> s] : x \in nv, s \in V}
          [] k = "vassign" -> {[op |-> k, id |-> x, src |-> s] : x \in V, s \in V}
          [] k = "vmove" -> {o \in {[op |-> k, id |-> x, src |-> s] : x \in nv, s \in V} : o.id # o.src}
          [] k = "vgrow" -> {[op |-> k, id |-> x, sets |-> e] : x \in {y \in V : Len(st.vs[y]) < MaxLen}, e \in Sets}
          [] k = "vset" -> {[op |-> k, id |-> x, i |-> i, sets |-> e] : x \in V, i \in ix, e \in Sets}
          [] k \in {"vback", "vfront"} -> {[op |-> k, id |-> x, sets |-> e] : x \in V, e \in Sets}
          [] k \in {"vresize", "vreserve"} -> {[op |-> k, id |-> x, n |-> n] : x \in V, n \in 0..MaxLen}
          [] k \in {"vpop", "vclear"} -> {[op |-> k, id |-> x] : x \in V}
          [] k = "vcpel" -> {[op |-> k, id |-> x, i |-> i, src |-> s, j |-> j] : x \in V, s \in V, i \in ix, j \in ix}
          [] k = "vfroms" -> {[op |-> k, id |-> x, i |-> i, src |-> s] : x \in V, i \in ix, s \in Z}
          [] k = "snew" -> {[op |-> k, id |-> x] : x \in nz}
          [] k = "sset" -> {[op |-> k, id |-> x, sets |-> e] : x \in Z, e \in Sets}
          [] k = "scopy" -> {[op |-> k, id |-> x, src |-> s] : x \in nz, s \in Z}
          [] k = "sfromv" -> {[op |-> k, id |-> x, src |-> s, i |-> i] : x \in Z, s \in V, i \in ix}
          [] k = "seq" -> {[op |-> k, id |-> x, src |-> s] : x \in Z, s \in Z}
          [] k = "xnew" -> {[op |-> k, id |-> x] : x \in {y \in ToSet(Xid) : y \notin X \/ ~st.xs[y].open}}
          [] k = "xgrow" -> {[op |-> k, id |-> x, sets |-> e] : x \in {y \in X : Len(st.xs[y].items) < 3 * MaxLen}, e \in Sets}
          [] OTHER -> {[op |-> k, id |-> x] : x \in X}
        : CLegal(S, st, o)}
Init == S \in Names /\ st = CState0 /\ hist = <<>>
Do(o) == st' = CApply(S, st, o) /\ hist' = Append(hist, o) /\ UNCHANGED S
Next == Len(hist) < MaxOps /\ \E k \in Kinds : \E o \in OpsOf(k) : Do(o)
Spec == Init /\ [][Next]_vars
NextRandom == /\ Len(hist) < MaxOps
              /\ LET A == [k \in Kinds |-> OpsOf(k)] IN
                 \E k \in {RandomElement({q \in Kinds : A[q] # {}})} : \E o \in {RandomElement(A[k])} : Do(o)
SpecRandom == Init /\ [][NextRandom]_vars
Emit == IF Len(hist) < EmitFrom THEN TRUE ELSE PrintT("@@" \o ToJson([s |-> S, hist |-> hist]))

Held == {st.vs[x] : x \in DOMAIN st.vs} \cup {st.xs[x].items : x \in DOMAIN st.xs}
Sized == \A q \in Held : \A i \in DOMAIN q : Len(q[i]) = Size(S)
Padding == \A q \in Held : \A i \in DOMAIN q : \A b \in BitsOf[S]..(8 * Size(S) - 1) : Bit(q[i], b) = 0
\* a step changes the register it names (a move also the one it takes from) and no other
Frame1 == [][LET o == hist'[Len(hist')] IN
             /\ \A x \in DOMAIN st.vs \ {o.id} : (o.op = "vmove" /\ x = o.src) \/ (x \in DOMAIN st'.vs /\ st'.vs[x] = st.vs[x])
             /\ \A x \in DOMAIN st.ss \ {o.id} : st'.ss[x] = st.ss[x]
             /\ \A x \in DOMAIN st.xs \ {o.id} : st'.xs[x] = st.xs[x]]_vars
\* a step changes at most one element of a vector it does not replace
OneElement == [][LET o == hist'[Len(hist')] IN
             o.op \in {"vgrow", "vset", "vback", "vfront", "vresize", "vreserve", "vpop", "vcpel", "vfroms"} =>
               LET a == st.vs[o.id] b == st'.vs[o.id] IN
               Cardinality({i \in DOMAIN a \cap DOMAIN b : a[i] # b[i]}) <= 1]_vars
=============================================================================
