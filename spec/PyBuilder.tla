----------------------------- MODULE PyBuilder -----------------------------
(* The Python archive builder: a sequence of set calls, then finish.  The calls available are data       *)
(* (model.json: pyops, each a resource name, a value and the faults that value has).                      *)
EXTENDS Format
CONSTANTS Root, MaxOps, EmitFrom
VARIABLES files, written, hist, log
vars == <<files, written, hist, log>>
PyOps == Model.pyops
Names == {r.name : r \in {x \in ToSet(Archives[Root]) : x.kind # "arch"}}

\* the files each call would write (evaluated once)
OpFiles == [i \in DOMAIN PyOps |-> IF PyOps[i].name \in Names /\ PyOps[i].faults = <<>> THEN ResFiles(Root, "", Res(Root, PyOps[i].name), PyOps[i].val) ELSE <<>>]

\* the errors a call may raise; {} = accepted
Refusals(w, op) ==
    (IF op.name = Root \o ".archive" THEN {"ResourceAlreadySetError", "UnknownResourceError"}
     ELSE IF op.name \notin Names THEN {"UnknownResourceError"} ELSE {})
    \cup (IF op.name \in w THEN {"ResourceAlreadySetError"} ELSE {})
    \cup (IF op.name \in Names THEN ToSet(op.faults) ELSE {})
Set(f, w, i) ==
    IF Refusals(w, PyOps[i]) # {} THEN [files |-> f, written |-> w]
    ELSE [files |-> OpFiles[i] @@ f, written |-> w \cup {PyOps[i].name}]
Start == SignatureFiles(Root, "")

Init == files = Start /\ written = {} /\ hist = <<>> /\ log = <<>>
Do(i) == LET a == Set(files, written, i) IN
         /\ files' = a.files /\ written' = a.written
         /\ hist' = Append(hist, i)
         /\ log' = Append(log, Refusals(written, PyOps[i]))
Next == Len(hist) < MaxOps /\ \E i \in DOMAIN PyOps : Do(i)
Spec == Init /\ [][Next]_vars
NextRandom == Len(hist) < MaxOps /\ \E i \in {RandomElement(DOMAIN PyOps)} : Do(i)
SpecRandom == Init /\ [][NextRandom]_vars

Verdict ==
    LET e == PyErr(files, Root, "") o == CppOpen(files, Root, "") IN
    [hist |-> hist, log |-> log, files |-> files,
     py |-> [open |-> e = {}, err |-> e, res |-> IF e = {} THEN PyDump(files, Root, "") ELSE <<>>],
     cpp |-> [judge |-> TRUE, open |-> o, res |-> IF o THEN CppDump(files, Root, "") ELSE <<>>]]
Emit == IF Len(hist) < EmitFrom THEN TRUE ELSE PrintT("@@" \o ToJson(Verdict))

\* every resource is written at most once, by a call that had no fault, and stays as that call wrote it
WrittenOnce == \A n \in written :
    LET ks == {k \in DOMAIN hist : PyOps[hist[k]].name = n /\ log[k] = {}} IN
    /\ Cardinality(ks) = 1
    /\ \A k \in ks : \A p \in DOMAIN OpFiles[hist[k]] : files[p] = OpFiles[hist[k]][p]
NothingElse == DOMAIN files = DOMAIN Start \cup UNION {{n, n \o ".schema"} \cup (IF Res(Root, n).kind = "multi" THEN {n \o "_index", n \o "_index.schema"} ELSE {}) : n \in written}
OpensIffComplete == CppOpen(files, Root, "") = (\A r \in ToSet(Archives[Root]) : ~r.opt => r.name \in written)
BothAgree == CppOpen(files, Root, "") = (PyErr(files, Root, "") = {})
=============================================================================
