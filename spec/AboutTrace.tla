----------------------------- MODULE AboutTrace -----------------------------
(* Judges {arch, files, got}: what a Python archive opened from files says about itself.                 *)
EXTENDS About
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
If(c, n) == IF c THEN {n} ELSE {}
RECURSIVE BadTold(_, _)
BadTold(e, g) ==
    UNION {If(e[k] # g[k], k) : k \in {"name", "rows", "bytes", "n", "schema", "schemas", "shown"}}
    \cup If(~(e.listed \subseteq ToSet(g.listed)), "listed") \cup If(g.total # g.bytes, "total")
    \cup (IF Len(e.subs) # Len(g.subs) THEN {"subs"} ELSE UNION {BadTold(e.subs[i], g.subs[i]) : i \in DOMAIN e.subs})
Bad(r) == BadTold(Told(r.files, r.arch, ""), r.got)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ LET b == Bad(Trace[l]) IN (IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b, exp |-> Told(Trace[l].files, Trace[l].arch, "")])))
             /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
