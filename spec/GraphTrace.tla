----------------------------- MODULE GraphTrace -----------------------------
(* The graph of a schema (the generator's dot output): namespaces, archives and resources as nested        *)
(* clusters, in each resource the structures it holds, field by field, and an arrow for every explicit      *)
(* reference.  Resources that are bound implicitly are shown as part of the resource that binds them.       *)
(*   {k:"graph", sch, got: {clusters, tables, arrows}}                                                       *)
EXTENDS Schema, Json
VARIABLES l
Trace == ndJsonDeserialize("trace.ndjson")

RECURSIVE Join(_)
Join(p) == IF Len(p) = 1 THEN p[1] ELSE p[1] \o "." \o Join(Tail(p))
Starts(p, q) == Len(p) > Len(q) /\ SubSeq(p, 1, Len(q)) = q
\* an enumeration is called relative to the namespace of the structure, or by its full name
Called(p, ns) == IF Starts(p, ns) THEN Join(SubSeq(p, Len(ns) + 1, Len(p))) ELSE Join(p)
Table(sch, T, p) == LET x == At(sch, p) IN
    [title |-> x.d.name, fields |-> [i \in DOMAIN x.d.fields |-> LET f == x.d.fields[i] IN
        <<f.name, IF IsBasic(f.t) THEN f.t.p[1] ELSE Called(To(T, x, f.t, "enum"), x.ns), ToString(FieldWidth(sch, T, x, f))>>]]
IndexTable(w) == [title |-> "IndexType" \o ToString(w), fields |-> <<<<"value", "u64", ToString(w)>>>>]

IsRes(sch, p) == LET x == At(sch, Front(p)) IN \E r \in ToSet(x.d.res) : r.name = Last(p)
ResAt(sch, p) == LET x == At(sch, Front(p)) IN CHOOSE r \in ToSet(x.d.res) : r.name = Last(p)
BoundAt(sch, p) == LET x == At(sch, Front(p)) IN CHOOSE b \in ToSet(x.d.bound) : b.name = Last(p)
Binds(sch, T, p) == LET x == At(sch, Front(p)) b == BoundAt(sch, p) IN [i \in DOMAIN b.res |-> To(T, x, b.res[i], "resource")]
Binders(sch, T, p) == LET x == At(sch, Front(p)) IN
    {Append(Front(p), b.name) : b \in {b \in ToSet(x.d.bound) : p \in ToSet(Binds(sch, T, Append(Front(p), b.name)))}}
Seen(sch, T, p) == IF Binders(sch, T, p) = {} THEN {p} ELSE Binders(sch, T, p)
RECURSIVE Tables(_, _, _)
Tables(sch, T, p) ==
    IF IsRes(sch, p)
    THEN LET r == ResAt(sch, p) ts == TypePaths(T, At(sch, Front(p)), r) IN
         CASE r.kind = "multi" -> <<IndexTable(r.iw)>> \o [i \in DOMAIN ts |-> Table(sch, T, ts[i])]
           [] r.kind \in {"raw", "arch"} -> <<>>
           [] OTHER -> [i \in DOMAIN ts |-> Table(sch, T, ts[i])]
    ELSE FlattenSeq([i \in DOMAIN Binds(sch, T, p) |-> Tables(sch, T, Binds(sch, T, p)[i])])
Nested(p) == [i \in DOMAIN p |-> <<p[i]>>]
KindName == [inst |-> "Instance", vec |-> "Vector", multi |-> "Multivector", raw |-> "RawData", arch |-> "Archive"]
Label(sch, p) == IF IsRes(sch, p) THEN <<Last(p), KindName[ResAt(sch, p).kind]>> \o (IF ResAt(sch, p).opt THEN <<"optional">> ELSE <<>>)
                 ELSE <<Last(p), "BoundResource">>
Cluster(sch, p) == Append(Nested(Front(p)), Label(sch, p))
Blank == [title |-> "", fields |-> <<>>]
Inner(sch, T, p) == LET t == Tables(sch, T, p) IN IF t = <<>> THEN {Blank} ELSE ToSet(t)
First(sch, T, p) == LET t == Tables(sch, T, p) IN IF t = <<>> THEN Blank ELSE t[1]

Archives(sch) == {x \in ToSet(Defs(sch)) : x.d.k = "archive"}
Resources(sch) == UNION {{Append(x.path, m) : m \in NamesOf(Members(x))} : x \in Archives(sch)}
Graph(sch, T) ==
    LET shown == {p \in Resources(sch) : Binders(sch, T, p) = {}} IN
    [clusters |-> {Nested(p) : p \in NsPaths(sch)} \cup {Nested(x.path) : x \in Archives(sch)} \cup {Cluster(sch, p) : p \in shown},
     tables |-> UNION {{[at |-> Cluster(sch, p), table |-> t] : t \in Inner(sch, T, p)} : p \in shown},
     arrows |-> UNION {UNION {UNION {
                    {[at |-> Cluster(sch, o), table |-> Table(sch, T, To(T, At(sch, Front(p)), e.st, "struct")), field |-> e.f,
                      to |-> Cluster(sch, d), into |-> First(sch, T, d)] : d \in Seen(sch, T, To(T, At(sch, Front(p)), e.dst, "resource"))}
                    : o \in Seen(sch, T, p)} : e \in ToSet(ResAt(sch, p).refs)} : p \in {q \in Resources(sch) : IsRes(sch, q)}}]

If(c, n) == IF c THEN {n} ELSE {}
\* what binding a bound resource means is not said anywhere
Layered(sch, T) == \E p \in Resources(sch) : ~IsRes(sch, p) /\ \E q \in ToSet(Binds(sch, T, p)) : ~IsRes(sch, q)
GraphBad(r) == LET T == TLCEval(Tree(r.sch)) IN
    IF Layered(r.sch, T) THEN {} ELSE IF r.got.clusters = <<>> THEN {"no_graph"} ELSE LET g == Graph(r.sch, T) IN
    If(ToSet(r.got.clusters) # g.clusters, "clusters") \cup If(ToSet(r.got.tables) # g.tables, "tables") \cup If(ToSet(r.got.arrows) # g.arrows, "arrows")

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == GraphBad(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b]))
             /\ l' = l + 1
             /\ IF l = Len(Trace) THEN PrintT("@@" \o ToJson([done |-> l])) ELSE TRUE
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
