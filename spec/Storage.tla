------------------------------- MODULE Storage -------------------------------
(* The resource storage interface: a tree of directories holding resources, each written once with a    *)
(* schema.  One specification for memory and files; a finished tree packed into a tar file is read      *)
(* through the same interface.  Histories are emitted with the answer every step must give.             *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps, EmitFrom
Dirs == {"d", "e", "d.e"}
Keys == {"k", "l", "k_index"}
Schemas == {"s1", "s2"}
Payloads == 1..3
VARIABLES handles, made, files, hist
vars == <<handles, made, files, hist>>
\* handles: paths of the storages at hand (the first is the root); files: path -> what was stored there
Init == handles = <<"">> /\ made = {} /\ files = <<>> /\ hist = <<>>
Room == Len(hist) < MaxOps
Step(op) == hist' = Append(hist, op)
Hs == 1..Len(handles)
MkDir(h, d) ==
    LET p == handles[h] \o d \o "/" IN
    /\ Room /\ Len(handles) < 5
    /\ made' = made \cup {p} /\ handles' = Append(handles, p) /\ UNCHANGED files
    /\ Step([op |-> "mkdir", h |-> h, d |-> d, ok |-> TRUE])
Dir(h, d) ==
    LET p == handles[h] \o d \o "/"
        ok == p \in made IN
    /\ Room /\ (ok => Len(handles) < 5)
    /\ handles' = (IF ok THEN Append(handles, p) ELSE handles) /\ UNCHANGED <<made, files>>
    /\ Step([op |-> "dir", h |-> h, d |-> d, ok |-> ok])
Put(h, k, s, v) ==
    LET p == handles[h] \o k IN
    /\ Room /\ p \notin DOMAIN files
    /\ files' = (p :> [s |-> s, v |-> v]) @@ files /\ UNCHANGED <<handles, made>>
    /\ Step([op |-> "put", h |-> h, k |-> k, s |-> s, v |-> v, ok |-> TRUE])
Get(h, k, s) ==
    LET p == handles[h] \o k
        there == p \in DOMAIN files /\ files[p].s = s IN
    /\ Room /\ UNCHANGED <<handles, made, files>>
    /\ Step([op |-> "get", h |-> h, k |-> k, s |-> s, v |-> IF there THEN files[p].v ELSE 0])
SchemaOf(h, k) ==
    LET p == handles[h] \o k IN
    /\ Room /\ UNCHANGED <<handles, made, files>>
    /\ Step([op |-> "schemaof", h |-> h, k |-> k, s |-> IF p \in DOMAIN files THEN files[p].s ELSE ""])
Has(h, k) ==
    /\ Room /\ UNCHANGED <<handles, made, files>>
    /\ Step([op |-> "has", h |-> h, k |-> k, ok |-> (handles[h] \o k) \in DOMAIN files])
\* a directory is there as soon as something is stored below it; of an empty one nothing is promised
Below(p) == {f \in DOMAIN files : Len(f) > Len(p) /\ SubSeq(f, 1, Len(p)) = p}
HasDir(h, d) ==
    LET p == handles[h] \o d \o "/" IN
    /\ Room /\ UNCHANGED <<handles, made, files>>
    /\ p \in made => Below(p) # {}
    /\ Step([op |-> "hasdir", h |-> h, d |-> d, ok |-> p \in made])
Next == \/ \E h \in Hs, d \in Dirs : MkDir(h, d) \/ Dir(h, d) \/ HasDir(h, d)
        \/ \E h \in Hs, k \in Keys : SchemaOf(h, k) \/ Has(h, k)
              \/ \E s \in Schemas : Get(h, k, s) \/ \E v \in Payloads : Put(h, k, s, v)
Spec == Init /\ [][Next]_vars
Last == hist[Len(hist)]
\* what the interface promises
GetReturnsPut == (hist # <<>> /\ Last.op = "get" /\ Last.v # 0) =>
    \E i \in DOMAIN hist : hist[i].op = "put" /\ hist[i].s = Last.s /\ hist[i].v = Last.v
        /\ handles[hist[i].h] \o hist[i].k = handles[Last.h] \o Last.k
DirsSeparate == \A i, j \in DOMAIN hist :        \* the same key in two directories is two resources
    (hist[i].op = "put" /\ hist[j].op = "put" /\ i # j) => handles[hist[i].h] \o hist[i].k # handles[hist[j].h] \o hist[j].k
NothingLost == \A i \in DOMAIN hist : hist[i].op = "put" =>
    LET p == handles[hist[i].h] \o hist[i].k IN p \in DOMAIN files /\ files[p].v = hist[i].v
Emit == (Len(hist) >= EmitFrom /\ Len(hist) = MaxOps) =>
    PrintT("@@" \o ToJson([hist |-> hist, files |-> files, made |-> made, handles |-> handles]))
==============================================================================
