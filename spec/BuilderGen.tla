----------------------------- MODULE BuilderGen -----------------------------
(* Histories of builder operations: every history up to MaxOps over a small archive (BFS), or random    *)
(* ones over a large archive (simulation).  Invariants state what the builder guarantees.               *)
EXTENDS Builder
CONSTANTS Root, MaxOps, MaxItems, EmitFrom, Storage, Inits
VARIABLES st, init, hist, comp
vars == <<st, init, hist, comp>>

Samples == Model.samples                  \* archive -> resource -> sequence of values (items for growing resources)
Full == ArchiveFiles(Root, "", Model.full[Root])
Sig == Root \o ".archive"
OptSubs == {r.name \o "/" : r \in {x \in ToSet(Archives[Root]) : x.kind = "arch" /\ x.opt}}
InitFiles(k) ==
    CASE k = "empty" -> <<>>
      [] k = "full" -> Full
      [] k = "noosub" -> [p \in {q \in DOMAIN Full : \A s \in OptSubs : ~IsPrefix(s, q)} |-> Full[p]]
      [] k = "sigonly" -> SignatureFiles(Root, "")
      [] k = "sigschema" -> [Full EXCEPT ![Sig \o ".schema"] = SchemaFile("extended|" \o @.b)]
      [] k = "signoschema" -> [p \in DOMAIN Full \ {Sig \o ".schema"} |-> Full[p]]
      [] k = "sigbroken" -> [Full EXCEPT ![Sig] = DataFile(Frame(<<1>>) \o <<0>>)]
      [] OTHER -> [p \in DOMAIN Full \ {Sig} |-> Full[p]]      \* "nosig": treated as no archive
Bid == <<"b1", "b2", "b3", "b4", "b5", "b6">>
NewB == Bid[Cardinality(DOMAIN st.bs) + 1]
NewG == <<"g1", "g2", "g3", "g4", "g5", "g6", "g7", "g8">>[Cardinality(DOMAIN st.gs) + 1]
ResOf(b) == ToSet(Archives[b.arch])
Touched(p) == p \in DOMAIN st.files /\ p \notin DOMAIN init

Ops ==
    (IF Cardinality(DOMAIN st.bs) < 5 /\ Cardinality({i \in DOMAIN st.bs : st.bs[i].pre = ""}) < 2
     THEN {[op |-> "builder", id |-> NewB, arch |-> Root]} ELSE {})
    \cup UNION {LET b == st.bs[i] IN
         UNION {IF r.kind = "arch"
                THEN (IF b.open /\ Cardinality(DOMAIN st.bs) < 5 THEN {[op |-> "sub", id |-> NewB, b |-> i, name |-> r.name]} ELSE {})
                ELSE LET p == b.pre \o r.name IN
                  (IF r.kind \in {"inst", "vec", "raw"} /\ (ForRust => ~Touched(p)) /\ p \notin st.pend /\ (\A g \in DOMAIN st.gs : st.gs[g].pre \o st.gs[g].name # p)
                   THEN {[op |-> "set", b |-> i, name |-> r.name, val |-> v] : v \in ToSet(Samples[b.arch][r.name])} ELSE {})
                  \cup (IF r.kind \in {"vec", "multi"} /\ Cardinality(DOMAIN st.gs) < 7 /\ (b.created => ~Touched(p) /\ p \notin st.pend /\ (\A g \in DOMAIN st.gs : st.gs[g].pre \o st.gs[g].name # p))
                        THEN {[op |-> "start", id |-> NewG, b |-> i, name |-> r.name]} ELSE {})
                : r \in ResOf(b)} : i \in DOMAIN st.bs}
    \cup UNION {LET g == st.gs[i] IN
         IF ~g.open THEN {}
         ELSE {[op |-> "close", id |-> i]}
              \cup (IF Len(g.items) < MaxItems THEN {[op |-> "grow", id |-> i, val |-> v] : v \in ToSet(Samples[g.arch][g.name \o "+"])} ELSE {})
         : i \in DOMAIN st.gs}
    \cup (IF Storage = "mem" /\ st.pend # {} THEN {} ELSE {[op |-> "read", arch |-> Root]})
    \cup (IF st.bs # <<>> THEN {[op |-> "end"]} ELSE {})

\* bookkeeping independent of the files: which resources and signatures have been completed
Completes(op, res) ==
    IF res # "ok" THEN {}
    ELSE CASE op.op = "set" -> {st.bs[op.b].pre \o op.name}
           [] op.op = "close" -> {st.gs[op.id].pre \o st.gs[op.id].name}
           [] op.op = "builder" -> {op.arch \o ".archive"}
           [] op.op = "sub" -> {st.bs[op.b].pre \o op.name \o "/" \o Res(st.bs[op.b].arch, op.name).arch \o ".archive"}
           [] OTHER -> {}
Damages(op, res) == IF op.op = "start" /\ res = "ok" THEN {st.bs[op.b].pre \o op.name} ELSE {}
Do(op) == LET a == Apply(st, op) IN
          /\ st' = a.st
          /\ hist' = Append(hist, op)
          /\ comp' = (comp \ Damages(op, a.res)) \cup Completes(op, a.res)
          /\ UNCHANGED init

Init == \E k \in Inits :
          /\ init = InitFiles(k)
          /\ st = State0(init, Storage = "tar")
          /\ hist = << [op |-> "init", kind |-> k] >>
          /\ comp = {p \in DOMAIN Full : p \in DOMAIN init /\ init[p] = Full[p] /\ Full[p].k = "data"}
                    \ (IF k \in {"sigschema", "signoschema"} THEN {Sig} ELSE {})
Next == Len(hist) <= MaxOps /\ \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
NextRandom == Len(hist) <= MaxOps /\ \E op \in {RandomElement(Ops)} : Do(op)
SpecRandom == Init /\ [][NextRandom]_vars

Emit == IF Len(hist) < EmitFrom THEN TRUE ELSE PrintT("@@" \o ToJson([hist |-> hist, init |-> init]))

\* ---- guarantees
\* an archive that was there (its signature file exists) is never altered, only its absent subarchives appear
ArchOfDir(d) == IF d = "" THEN Root ELSE (CHOOSE r \in ToSet(Archives[Root]) : r.name \o "/" = d).arch
DirsIn == {""} \cup {r.name \o "/" : r \in {x \in ToSet(Archives[Root]) : x.kind = "arch"}}
DirOf(p) == IF \E d \in DirsIn \ {""} : IsPrefix(d, p) THEN CHOOSE d \in DirsIn \ {""} : IsPrefix(d, p) ELSE ""
HadArchive(d) == (d \o ArchOfDir(d) \o ".archive") \in DOMAIN init
Untouched == /\ \A p \in DOMAIN init : HadArchive(DirOf(p)) => p \in DOMAIN st.files /\ st.files[p] = init[p]
             /\ \A p \in DOMAIN st.files \ DOMAIN init : ~HadArchive(DirOf(p))
NothingLost == DOMAIN init \subseteq DOMAIN st.files
\* the archive opens exactly when everything mandatory has been completed
RECURSIVE Complete(_, _)
Complete(arch, pre) ==
    /\ (pre \o arch \o ".archive") \in comp
    /\ \A r \in ToSet(Archives[arch]) : ~r.opt =>
         IF r.kind = "arch" THEN Complete(r.arch, pre \o r.name \o "/") ELSE (pre \o r.name) \in comp
OpensIffComplete == CppOpen(st.files, Root, "") = Complete(Root, "")
\* what was accepted is what is read
ReadOnlyStays == Storage = "tar" => st.files = init
CreatedOnlyWhenAbsent == \A i \in DOMAIN st.bs : st.bs[i].created => ~HadArchive(st.bs[i].pre)
=============================================================================
