----------------------------- MODULE InspectTrace -----------------------------
(* Judges the inspector: {files, exists, want, name, got}; got as in ArchiveTrace, name of what opened.  *)
EXTENDS Inspect
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
If(c, n) == IF c THEN {n} ELSE {}
Bad(r) ==
    LET err == IF r.exists THEN OpenErr(r.files, r.want) ELSE {"other:RuntimeError"} IN
    IF err # {} THEN (IF r.got.open THEN {"opens"} ELSE If(r.got.err \notin err, "wrong_error"))
    ELSE IF ~r.got.open THEN {"does_not_open"}
    ELSE LET exp == Opened(r.files, r.want) IN
         If(r.name # Meant(r.files, r.want), "wrong_archive")
         \cup {"content:" \o n : n \in {m \in DOMAIN exp \cup DOMAIN r.got.res :
                    m \notin DOMAIN exp \/ m \notin DOMAIN r.got.res \/ exp[m] # r.got.res[m]}}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ LET b == Bad(Trace[l]) IN (IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b])))
             /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
