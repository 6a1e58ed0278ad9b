---------------------------- MODULE ThreadsTrace ----------------------------
(* Judges what threads saw of files they read at the same time:                                         *)
(*   {op:"read", files, want, got}   want: a path per thread, got: {gone, b} or {gone, len, same}        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
BadRead(r) ==
    {"missing" : i \in {j \in DOMAIN r.want : r.want[j] \in DOMAIN r.files /\ r.got[j].gone}}
    \cup {"there" : i \in {j \in DOMAIN r.want : r.want[j] \notin DOMAIN r.files /\ ~r.got[j].gone}}
    \cup {"content" : i \in {j \in DOMAIN r.want : r.want[j] \in DOMAIN r.files /\ ~r.got[j].gone
             /\ (r.got[j].len # r.files[r.want[j]].len \/ ~r.got[j].same \/ r.got[j].head # r.files[r.want[j]].head)}}
Bad(r) == IF Len(r.got) # Len(r.want) THEN {"threads"} ELSE BadRead(r)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ (LET b == Bad(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b]))) /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
