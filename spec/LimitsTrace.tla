----------------------------- MODULE LimitsTrace -----------------------------
(* Judges opened archives: {lang, arch, content, open, res}; res is what an opened archive shows (C++    *)
(* also: cast; Rust also: err).                                                                          *)
EXTENDS Limits
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
If(c, n) == IF c THEN {n} ELSE {}
BadRs(r) == LET o == RsOpens(r.arch, r.content) IN
    If(r.open # o, IF o THEN "refused" ELSE "accepted")
    \cup (IF o /\ r.open THEN If(r.res # Shows(r.arch, r.content), "shown") ELSE {})
    \cup (IF ~o /\ ~r.open THEN If(r.err # "toobig", "error") ELSE {})
Bad(r) == IF r.lang = "rs" THEN BadRs(r) ELSE LET o == Opens(r.arch, r.content) IN
    If(r.open # o, IF o THEN "refused" ELSE "accepted") \cup If(r.cast # r.open, "operator_bool")
    \cup (IF o /\ r.open THEN If(r.res # Shows(r.arch, r.content), "shown") ELSE {})
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ LET b == Bad(Trace[l]) IN (IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b])))
             /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
