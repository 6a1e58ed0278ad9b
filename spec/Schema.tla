------------------------------- MODULE Schema -------------------------------
(* The schema language: scopes and name resolution, the rules a schema has to obey, the numbers of       *)
(* enumeration values, and the schema text that is stored with an archive or resource (as a set of       *)
(* definitions with every name resolved).                                                                *)
(*   schema     sequence of blocks [ns |-> path, defs |-> sequence of definitions]                       *)
(*   definition const [name,t,v] | enum [name,t,w,vals] | struct [name,fields] | archive [name,res,bound] *)
(*   reference  [q |-> qualified?, p |-> path]; numbers [neg, mag] with mag the bits of the magnitude     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

Basic == [bool |-> 1, u8 |-> 8, i8 |-> 8, u16 |-> 16, i16 |-> 16, u32 |-> 32, i32 |-> 32, u64 |-> 64, i64 |-> 64]
Signed(t) == t \in {"i8", "i16", "i32", "i64"}
IsBasic(r) == ~r.q /\ Len(r.p) = 1 /\ r.p[1] \in DOMAIN Basic

\* ---- numbers
Zero == [neg |-> FALSE, mag |-> <<>>]
RECURSIVE IncBits(_), DecBits(_), Trim(_)
Trim(m) == IF m = <<>> \/ m[Len(m)] = 1 THEN m ELSE Trim(SubSeq(m, 1, Len(m) - 1))
IncBits(m) == IF m = <<>> THEN <<1>> ELSE IF m[1] = 0 THEN <<1>> \o Tail(m) ELSE <<0>> \o IncBits(Tail(m))
DecBits(m) == IF m[1] = 1 THEN <<0>> \o Tail(m) ELSE <<1>> \o DecBits(Tail(m))
Inc(n) == IF n.neg THEN LET m == Trim(DecBits(n.mag)) IN [neg |-> m # <<>>, mag |-> m]
          ELSE [neg |-> FALSE, mag |-> IncBits(n.mag)]
IsPower(m) == m # <<>> /\ \A i \in 1..(Len(m) - 1) : m[i] = 0
Fits(n, w, signed) ==
    IF signed THEN IF n.neg THEN Len(n.mag) < w \/ (Len(n.mag) = w /\ IsPower(n.mag)) ELSE Len(n.mag) < w
    ELSE ~n.neg /\ Len(n.mag) <= w
RECURSIVE IntOf(_)          \* the magnitude of a small number
IntOf(m) == IF m = <<>> THEN 0 ELSE m[1] + 2 * IntOf(Tail(m))
Small(n) == LET v == IntOf(n.mag) IN IF n.neg THEN 0 - v ELSE v

\* ---- enumerations: a value without a number continues from the one before
RECURSIVE Assign(_, _)
Assign(vals, next) ==
    IF vals = <<>> THEN <<>>
    ELSE LET v == IF Head(vals).has THEN Head(vals).v ELSE next
         IN <<[name |-> Head(vals).name, v |-> v]>> \o Assign(Tail(vals), Inc(v))
Values(e) == Assign(e.vals, Zero)
EnumWidth(e) == IF e.w = 0 THEN Basic[e.t] ELSE e.w
Unknown(n) == "UNKNOWN_VALUE_" \o (IF n < 0 THEN "MINUS_" \o ToString(0 - n) ELSE ToString(n))
Span(w, signed) == IF signed THEN (0 - 2 ^ (w - 1))..(2 ^ (w - 1) - 1) ELSE 0..(2 ^ w - 1)
Numbers(vs) == {vs[i].v : i \in DOMAIN vs}
NamesOf(xs) == {xs[i].name : i \in DOMAIN xs}
EnumOk(e) ==
    LET vs == Values(e) w == EnumWidth(e) n == Len(vs) s == Signed(e.t) IN
    /\ w <= Basic[e.t]
    /\ Cardinality(Numbers(vs)) = n /\ Cardinality(NamesOf(vs)) = n
    /\ w <= 20 /\ 2 * n + 256 >= 2 ^ w
    /\ \A i \in DOMAIN vs : Fits(vs[i].v, w, s)
    /\ NamesOf(vs) \cap {Unknown(x) : x \in Span(w, s) \ {Small(v) : v \in Numbers(vs)}} = {}

\* ---- the tree: every definition with its path
RECURSIVE Flat(_, _)
Flat(sch, i) == IF i > Len(sch) THEN <<>>
    ELSE [k \in DOMAIN sch[i].defs |-> [path |-> sch[i].ns \o <<sch[i].defs[k].name>>, ns |-> sch[i].ns, d |-> sch[i].defs[k]]] \o Flat(sch, i + 1)
Defs(sch) == Flat(sch, 1)
NsPaths(sch) == UNION {{SubSeq(sch[i].ns, 1, n) : n \in 1..Len(sch[i].ns)} : i \in DOMAIN sch}
Members(x) == CASE x.d.k = "struct" -> [i \in DOMAIN x.d.fields |-> [name |-> x.d.fields[i].name, k |-> "field"]]
                [] x.d.k = "enum" -> [i \in DOMAIN x.d.vals |-> [name |-> x.d.vals[i].name, k |-> "value"]]
                [] x.d.k = "archive" -> [i \in DOMAIN x.d.res |-> [name |-> x.d.res[i].name, k |-> "resource"]]
                                        \o [i \in DOMAIN x.d.bound |-> [name |-> x.d.bound[i].name, k |-> "resource"]]
                [] OTHER -> <<>>
Distinct(xs) == Cardinality(NamesOf(xs)) = Len(xs)
Once(sch) == LET D == Defs(sch) IN
    /\ \A i, j \in DOMAIN D : D[i].path = D[j].path => i = j
    /\ \A i \in DOMAIN D : D[i].path \notin NsPaths(sch) /\ Distinct(Members(D[i]))
\* path -> kind, for all nodes
Tree(sch) == LET D == Defs(sch) IN
    [p \in NsPaths(sch) |-> "namespace"]
    @@ [p \in {D[i].path : i \in DOMAIN D} |-> D[CHOOSE i \in DOMAIN D : D[i].path = p].d.k]
    @@ [p \in UNION {{Append(D[i].path, m) : m \in NamesOf(Members(D[i]))} : i \in DOMAIN D} |->
          LET i == CHOOSE i \in DOMAIN D : D[i].path = Front(p) IN
          Members(D[i])[CHOOSE m \in DOMAIN Members(D[i]) : Members(D[i])[m].name = Last(p)].k]

\* ---- names: innermost scope first; a qualified name starts at the root.  <<>> = refers to nothing
Resolve(T, scopes, ref) ==
    IF ref.q THEN IF ref.p \in DOMAIN T THEN ref.p ELSE <<>>
    ELSE LET hits == {i \in DOMAIN scopes : (scopes[i] \o ref.p) \in DOMAIN T}
         IN IF hits = {} THEN <<>> ELSE scopes[Min(hits)] \o ref.p
Scopes(x) == <<x.path, x.ns>>
To(T, x, ref, kind) == LET p == Resolve(T, Scopes(x), ref) IN IF p # <<>> /\ T[p] = kind THEN p ELSE <<>>
DefAt(sch, p) == LET D == Defs(sch) IN D[CHOOSE i \in DOMAIN D : D[i].path = p].d

\* ---- the rules
FieldWidth(sch, T, x, f) == IF IsBasic(f.t) THEN IF f.w = 0 THEN Basic[f.t.p[1]] ELSE f.w
                            ELSE EnumWidth(DefAt(sch, To(T, x, f.t, "enum")))
ConstOk(c) == Fits(c.v, Basic[c.t], Signed(c.t))
RefersOk(sch, T, x, f, ref) ==      \* @const and @optional
    LET p == To(T, x, ref, "const") IN
    /\ p # <<>> /\ IsBasic(f.t)
    /\ LET c == DefAt(sch, p) IN c.t = f.t.p[1] /\ Fits(c.v, FieldWidth(sch, T, x, f), Signed(c.t))
FieldOk(sch, T, x, f) ==
    /\ IF IsBasic(f.t) THEN f.w <= Basic[f.t.p[1]]
       ELSE LET p == To(T, x, f.t, "enum") IN p # <<>> /\ EnumOk(DefAt(sch, p)) /\ (f.w = 0 \/ f.w = EnumWidth(DefAt(sch, p)))
    /\ \A i \in DOMAIN f.const : RefersOk(sch, T, x, f, f.const[i])
    /\ \A i \in DOMAIN f.opt : RefersOk(sch, T, x, f, f.opt[i])
    /\ Cardinality({To(T, x, f.opt[i], "const") : i \in DOMAIN f.opt}) <= 1
    /\ f.range # "" => f.range \notin NamesOf(x.d.fields) /\ f.opt = <<>>
HasRange(d) == \E i \in DOMAIN d.fields : d.fields[i].range # ""
TypePaths(T, x, r) == [i \in DOMAIN r.types |-> To(T, x, r.types[i], IF r.kind = "arch" THEN "archive" ELSE "struct")]
RefOk(sch, T, x, r, e) ==
    LET st == To(T, x, e.st, "struct")
        f == To(T, x, [e.st EXCEPT !.p = Append(@, e.f)], "field")
        d == To(T, x, e.dst, "resource")
    IN st # <<>> /\ f # <<>> /\ d # <<>> /\ r.kind # "arch" /\ st \in ToSet(TypePaths(T, x, r))
ResOk(sch, T, x, r) ==
    LET ts == TypePaths(T, x, r) IN
    /\ <<>> \notin ToSet(ts) /\ Cardinality(ToSet(ts)) = Len(ts)
    /\ r.kind \in {"inst", "multi"} => \A i \in DOMAIN ts : ~HasRange(DefAt(sch, ts[i]))
    /\ \A i \in DOMAIN r.refs : RefOk(sch, T, x, r, r.refs[i])
    /\ \A i, j \in DOMAIN r.refs : i < j =>       \* the same reference once
          LET a == r.refs[i] b == r.refs[j] IN
          To(T, x, a.st, "struct") # To(T, x, b.st, "struct") \/ a.f # b.f \/ To(T, x, a.dst, "resource") # To(T, x, b.dst, "resource")
DefOk(sch, T, x) ==
    CASE x.d.k = "const" -> ConstOk(x.d)
      [] x.d.k = "enum" -> EnumOk(x.d)
      [] x.d.k = "struct" -> \A i \in DOMAIN x.d.fields : FieldOk(sch, T, x, x.d.fields[i])
      [] x.d.k = "archive" -> /\ \A i \in DOMAIN x.d.res : ResOk(sch, T, x, x.d.res[i])
                              /\ \A i \in DOMAIN x.d.bound : \A j \in DOMAIN x.d.bound[i].res : To(T, x, x.d.bound[i].res[j], "resource") # <<>>
Parts(sch, T, x) == UNION {ToSet(TypePaths(T, x, r)) : r \in {x.d.res[i] : i \in {j \in DOMAIN x.d.res : x.d.res[j].kind = "arch"}}} \ {<<>>}
RECURSIVE Reach(_, _, _)
Reach(edges, from, n) == IF n = 0 THEN from ELSE Reach(edges, from \cup UNION {edges[p] : p \in from}, n - 1)
Acyclic(sch, T) ==
    LET D == Defs(sch) A == {i \in DOMAIN D : D[i].d.k = "archive"}
        E == [p \in {D[i].path : i \in A} |-> Parts(sch, T, D[CHOOSE i \in A : D[i].path = p])]
    IN \A p \in DOMAIN E : p \notin Reach(E, E[p], Cardinality(A))
Valid(sch) ==
    /\ Once(sch)
    /\ LET T == TLCEval(Tree(sch)) D == Defs(sch) IN
       /\ \A i \in DOMAIN D : DefOk(sch, T, D[i])
       /\ Acyclic(sch, T)

\* ---- stored schemas of a valid schema: definitions with resolved names
At(sch, p) == LET D == Defs(sch) IN D[CHOOSE i \in DOMAIN D : D[i].path = p]
Canon(sch, T, p, keep, whole) ==
    LET x == At(sch, p) d == x.d IN
    CASE d.k = "const" -> [k |-> "const", p |-> p, t |-> d.t, v |-> d.v]
      [] d.k = "enum" -> [k |-> "enum", p |-> p, t |-> d.t, w |-> EnumWidth(d), vals |-> Values(d)]
      [] d.k = "struct" -> [k |-> "struct", p |-> p, fields |-> [i \in DOMAIN d.fields |->
            LET f == d.fields[i] IN
            [name |-> f.name, t |-> IF IsBasic(f.t) THEN f.t.p ELSE To(T, x, f.t, "enum"), w |-> FieldWidth(sch, T, x, f),
             range |-> f.range, const |-> [j \in DOMAIN f.const |-> To(T, x, f.const[j], "const")],
             opt |-> [j \in DOMAIN f.opt |-> To(T, x, f.opt[j], "const")]]]]
      [] d.k = "archive" -> [k |-> "archive", p |-> p,
            bound |-> IF whole THEN [i \in DOMAIN d.bound |-> [name |-> d.bound[i].name,
                        res |-> [j \in DOMAIN d.bound[i].res |-> To(T, x, d.bound[i].res[j], "resource")]]] ELSE <<>>,
            res |-> LET rs == SelectSeq(d.res, LAMBDA r : r.name \in keep) IN [i \in DOMAIN rs |->
               LET r == rs[i] IN
               [name |-> r.name, kind |-> r.kind, types |-> TypePaths(T, x, r), iw |-> r.iw, opt |-> r.opt,
                refs |-> [j \in DOMAIN r.refs |-> LET e == r.refs[j] IN
                    [st |-> To(T, x, e.st, "struct"), f |-> e.f, dst |-> To(T, x, e.dst, "resource")]]]]]

FieldRefs(T, x) == UNION {ToSet([j \in DOMAIN f.const |-> To(T, x, f.const[j], "const")]) \cup ToSet([j \in DOMAIN f.opt |-> To(T, x, f.opt[j], "const")])
                          \cup (IF IsBasic(f.t) THEN {} ELSE {To(T, x, f.t, "enum")}) : f \in ToSet(x.d.fields)}
\* constants no field refers to belong to every archive
Globals(sch, T) == LET D == Defs(sch) IN
    {D[i].path : i \in {j \in DOMAIN D : D[j].d.k = "const"}}
    \ UNION {FieldRefs(T, D[i]) : i \in {j \in DOMAIN D : D[j].d.k = "struct"}}
RECURSIVE Needs(_, _, _)
ResNeeds(sch, T, x, r) == LET ts == ToSet(TypePaths(T, x, r)) IN ts \cup UNION {Needs(sch, T, t) : t \in ts}
Needs(sch, T, p) == LET x == At(sch, p) IN
    CASE x.d.k = "struct" -> FieldRefs(T, x)
      [] x.d.k = "archive" -> Globals(sch, T) \cup UNION {ResNeeds(sch, T, x, r) : r \in ToSet(x.d.res)}
      [] OTHER -> {}
Direct(sch, T, p) == LET x == At(sch, p) IN
    CASE x.d.k = "struct" -> FieldRefs(T, x)
      [] x.d.k = "archive" -> Globals(sch, T) \cup UNION {ToSet(TypePaths(T, x, r)) : r \in ToSet(x.d.res)}
      [] OTHER -> {}
\* res = "" : the archive itself
Stored(sch, T, p, res) ==
    LET x == At(sch, p) IN
    IF res = "" THEN {Canon(sch, T, q, NamesOf(IF At(sch, q).d.k = "archive" THEN At(sch, q).d.res ELSE <<>>), TRUE) : q \in Needs(sch, T, p) \cup {p}}
    ELSE LET r == CHOOSE r \in ToSet(x.d.res) : r.name = res IN
         {Canon(sch, T, q, NamesOf(IF At(sch, q).d.k = "archive" THEN At(sch, q).d.res ELSE <<>>), TRUE) : q \in ResNeeds(sch, T, x, r)}
         \cup {Canon(sch, T, p, {res}, FALSE)}
\* whether the text stored for an archive can stand on its own: explicit references and bindings stay inside
Inside(sch, T, p) ==
    LET all == {q \in Needs(sch, T, p) \cup {p} : At(sch, q).d.k = "archive"} IN
    \A q \in all : LET x == At(sch, q) IN
        /\ \A r \in ToSet(x.d.res) : \A e \in ToSet(r.refs) : Front(To(T, x, e.dst, "resource")) \in all
        /\ \A b \in ToSet(x.d.bound) : \A e \in ToSet(b.res) : Front(To(T, x, e, "resource")) \in all
=============================================================================
