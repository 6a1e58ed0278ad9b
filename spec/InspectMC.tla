------------------------------- MODULE InspectMC -------------------------------
(* Archives are put next to each other into one place, lose files, and are opened without further notice. *)
EXTENDS Inspect
CONSTANTS Names
VARIABLES files, stored
vars == <<files, stored>>
\* an archive with nothing but its mandatory resources, all empty
RECURSIVE Bare(_)
ZeroVal(S) == [k \in DOMAIN Fields(S) |-> [i \in 1..8 |-> 0]]
Bare(a) == LET must == {i \in DOMAIN Archives[a] : ~Archives[a][i].opt} IN
    [nm \in {Archives[a][i].name : i \in must} |->
        LET r == Res(a, nm) IN CASE r.kind = "arch" -> Bare(r.arch) [] r.kind = "inst" -> ZeroVal(r.types[1]) [] OTHER -> <<>>]
Init == files = <<>> /\ stored = {}
Put == \E a \in Names \ stored : stored' = stored \cup {a} /\ files' = ArchiveFiles(a, "", Bare(a)) @@ files
Drop == \E a \in stored : stored' = stored \ {a} /\ files' = [p \in {q \in DOMAIN files : ~IsPrefix(SignatureOf(a), q)} |-> files[p]]
Spec == Init /\ [][Put \/ Drop]_vars
Shows == Found(files) = stored
OneOpens == (Cardinality(stored) = 1) = (Meant(files, "") # "")
\* with its name given an archive opens whatever lies beside it
ByName == \A a \in Names : (OpenErr(files, a) = {}) = (a \in stored)
Sole == \A a \in stored : Cardinality(stored) = 1 => Opened(files, "") = Opened(files, a)
Same == \A a \in stored : DOMAIN Opened(files, a) = DOMAIN Bare(a)
=============================================================================
