------------------------------ MODULE SchemaGen ------------------------------
(* Small schemas around one reference: definitions of few names in few places are added one by one.       *)
(* Laws of the language are checked on each; the schemas are replayed on the generator.                     *)
EXTENDS Schema, Json
CONSTANTS MaxDefs, EmitAt, Deep
VARIABLES site, added, pos
vars == <<site, added, pos>>
Places == {<<"a">>, <<"a", "b">>, <<"b">>} \cup (IF Deep THEN {<<"a", "a">>} ELSE {})
Names == {"a", "b"}
U8 == [name |-> "x", t |-> [q |-> FALSE, p |-> <<"u8">>], w |-> 0, range |-> "", const |-> <<>>, opt |-> <<>>]
Refs == {[q |-> FALSE, p |-> p] : p \in {<<"a">>, <<"b">>, <<"a", "a">>, <<"b", "a">>, <<"a", "b">>, <<"X", "a">>}}
        \cup {[q |-> TRUE, p |-> p] : p \in {<<"a">>, <<"a", "a">>, <<"a", "b">>, <<"b", "a">>, <<"b", "b">>, <<"a", "b", "a">>, <<"a", "b", "b">>, <<"a", "X">>, <<"b", "a", "a">>}}
Kinds == {"enum", "struct", "archive", "const"}
Thing(k, n) == CASE k = "enum" -> [k |-> "enum", name |-> n, t |-> "u8", w |-> 1, vals |-> <<[name |-> "b", has |-> FALSE, v |-> Zero]>>]
                 [] k = "const" -> [k |-> "const", name |-> n, t |-> "u8", v |-> [neg |-> FALSE, mag |-> <<1>>]]
                 [] k = "struct" -> [k |-> "struct", name |-> n, fields |-> <<[U8 EXCEPT !.name = "a"]>>]
                 [] OTHER -> [k |-> "archive", name |-> n, bound |-> <<>>, res |-> <<[name |-> "b", kind |-> "raw", types |-> <<>>, iw |-> 0, opt |-> TRUE, refs |-> <<>>]>>]
Res(n, k, r) == [name |-> n, kind |-> k, types |-> <<r>>, iw |-> IF k = "multi" THEN 33 ELSE 0, opt |-> FALSE, refs |-> <<>>]
Site(s) == CASE s.k = "enum" -> [k |-> "struct", name |-> "X", fields |-> <<U8, [U8 EXCEPT !.name = s.m, !.t = s.r]>>]
             [] s.k = "const" -> [k |-> "struct", name |-> "X", fields |-> <<U8, [U8 EXCEPT !.name = s.m, !.const = <<s.r>>]>>]
             [] s.k = "opt" -> [k |-> "struct", name |-> "X", fields |-> <<U8, [U8 EXCEPT !.name = s.m, !.opt = <<s.r>>]>>]
             [] s.k = "bound" -> [k |-> "archive", name |-> "X", bound |-> <<[name |-> "z", res |-> <<s.r>>]>>,
                                  res |-> <<[name |-> s.m, kind |-> "raw", types |-> <<>>, iw |-> 0, opt |-> FALSE, refs |-> <<>>]>>]
             [] OTHER -> [k |-> "archive", name |-> "X", bound |-> <<>>, res |-> <<Res(s.m, s.k, s.r)>>]
User(s) == IF s.k \in {"enum", "const", "opt"}
           THEN <<[k |-> "archive", name |-> "Y", bound |-> <<>>, res |-> <<Res("v", "vec", [q |-> FALSE, p |-> <<"X">>])>>]>> ELSE <<>>
\* the site goes in front of the first pos definitions
Blocks(ds) == [i \in DOMAIN ds |-> [ns |-> ds[i].ns, defs |-> <<Thing(ds[i].k, ds[i].n)>>]]
Schema == LET b == Blocks(added) s == <<[ns |-> site.ns, defs |-> <<Site(site)>> \o User(site)]>> IN
          SubSeq(b, 1, pos) \o s \o SubSeq(b, pos + 1, Len(b))

Init == /\ site \in [k : {"enum", "const", "opt", "inst", "vec", "multi", "arch", "bound"}, ns : Places, m : {"a", "m"}, r : Refs]
        /\ added = <<>> /\ pos = 0
New == {[ns |-> ns, k |-> k, n |-> n] : ns \in Places, k \in Kinds, n \in Names}
Next == Len(added) < MaxDefs /\ \E d \in New : added' = Append(added, d) /\ pos' \in {pos, pos + 1} /\ UNCHANGED site
Spec == Init /\ [][Next]_vars
InitRandom == /\ added = <<>> /\ pos = 0
              /\ site \in [k : {RandomElement({"enum", "const", "opt", "inst", "vec", "multi", "arch", "bound"})}, ns : Places, m : {"a", "m"}, r : {RandomElement(Refs)}]
NextRandom == Len(added) < MaxDefs /\ \E d \in {RandomElement(New)} : added' = Append(added, d) /\ pos' \in {pos, pos + 1} /\ UNCHANGED site
SpecRandom == Init /\ [][NextRandom]_vars
Emit == IF Len(added) # EmitAt THEN TRUE ELSE PrintT("@@" \o ToJson([sch |-> Schema]))

\* ---- laws
Verdict == Valid(Schema)
\* the order of definitions does not matter
AnyOrder == Valid(Reverse(Schema)) = Verdict
\* a definition nobody refers to does not matter
Extra == <<[ns |-> <<"zz">>, defs |-> <<Thing("enum", "zz"), Thing("struct", "yy")>>]>>
Archs(s) == {Defs(s)[i].path : i \in {j \in DOMAIN Defs(s) : Defs(s)[j].d.k = "archive"}}
Unrelated == /\ Valid(Schema \o Extra) = Verdict
             /\ Verdict => LET T == Tree(Schema) U == Tree(Schema \o Extra) IN
                  \A p \in Archs(Schema) : Stored(Schema, T, p, "") = Stored(Schema \o Extra, U, p, "")
\* what is stored for an archive is a schema that is valid and stored as it is
AsRef(p) == [q |-> TRUE, p |-> p]
AsDef(c) == CASE c.k = "const" -> [k |-> "const", name |-> Last(c.p), t |-> c.t, v |-> c.v]
              [] c.k = "enum" -> [k |-> "enum", name |-> Last(c.p), t |-> c.t, w |-> c.w, vals |-> [i \in DOMAIN c.vals |-> [name |-> c.vals[i].name, has |-> TRUE, v |-> c.vals[i].v]]]
              [] c.k = "struct" -> [k |-> "struct", name |-> Last(c.p), fields |-> [i \in DOMAIN c.fields |-> LET f == c.fields[i] IN
                    [name |-> f.name, t |-> IF Len(f.t) = 1 THEN [q |-> FALSE, p |-> f.t] ELSE AsRef(f.t), w |-> f.w, range |-> f.range,
                     const |-> [j \in DOMAIN f.const |-> AsRef(f.const[j])], opt |-> [j \in DOMAIN f.opt |-> AsRef(f.opt[j])]]]]
              [] OTHER -> [k |-> "archive", name |-> Last(c.p),
                    bound |-> [i \in DOMAIN c.bound |-> [name |-> c.bound[i].name, res |-> [j \in DOMAIN c.bound[i].res |-> AsRef(c.bound[i].res[j])]]],
                    res |-> [i \in DOMAIN c.res |-> LET r == c.res[i] IN
                      [name |-> r.name, kind |-> r.kind, types |-> [j \in DOMAIN r.types |-> AsRef(r.types[j])], iw |-> r.iw, opt |-> r.opt,
                       refs |-> [j \in DOMAIN r.refs |-> [st |-> AsRef(r.refs[j].st), f |-> r.refs[j].f, dst |-> AsRef(r.refs[j].dst)]]]]]
AsSchema(S) == [i \in 1..Cardinality(S) |-> LET c == SetToSeq(S)[i] IN [ns |-> Front(c.p), defs |-> <<AsDef(c)>>]]
Again == Verdict => LET T == Tree(Schema) IN \A p \in Archs(Schema) :
            LET S == Stored(Schema, T, p, "") Z == TLCEval(AsSchema(S)) IN
            Inside(Schema, T, p) => Valid(Z) /\ Stored(Z, Tree(Z), p, "") = S
\* a qualified reference means the same everywhere; a local one means what the innermost scope has
Innermost == Verdict => LET T == Tree(Schema) IN
    \A p \in DOMAIN T : LET q == Resolve(T, <<site.ns \o <<"X">>, site.ns>>, site.r) IN q # <<>> /\ (site.r.q => q = site.r.p)
=============================================================================
