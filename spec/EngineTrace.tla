----------------------------- MODULE EngineTrace -----------------------------
(* Replays recorded generator runs through Engine: every result of the same schema and language is the      *)
(* same text (known by its digest), whoever made it, in whatever process and after whatever else, and       *)
(* files hold what Engine says.  Records: {run, start} begins a history with the files as they are;          *)
(*   {op: open|render|command, ..., ok, sum} with sum the digest of the text ("" if there is none)           *)
EXTENDS Naturals, Sequences, TLC, Json, FiniteSets
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, made, engines, files
vars == <<l, made, engines, files>>
Known(s, g) == <<s, g>> \in DOMAIN made
If(c, n) == IF c THEN {n} ELSE {}
R == Trace[l]
Bad == CASE R.op = "start" -> {}
         [] R.op = "open" -> If(R.ok # R.good, IF R.ok THEN "accepted" ELSE "refused")
         [] R.op = "render" -> If(R.ok # R.lang, IF R.ok THEN "rendered" ELSE "not_rendered")
                               \cup If(R.ok /\ Known(engines[R.e], R.g) /\ made[<<engines[R.e], R.g>>] # R.sum, "other_text")
         [] R.op = "command" -> If(R.ok # (R.good /\ R.lang), IF R.ok THEN "succeeded" ELSE "failed")
                               \cup If(R.ok /\ Known(R.s, R.g) /\ made[<<R.s, R.g>>] # R.sum, "other_text")
                               \cup If(~R.ok /\ R.sum # files[R.f], "file_touched")
         [] OTHER -> {R.op}
Learn(s, g) == IF Known(s, g) THEN made ELSE (<<s, g>> :> R.sum) @@ made
TraceInit == l = 1 /\ made = <<>> /\ engines = <<>> /\ files = <<>>
TraceNext ==
    /\ l <= Len(Trace)
    /\ IF Bad = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> Bad]))
    /\ engines' = (CASE R.op = "start" -> <<>> [] R.op = "open" /\ R.ok -> Append(engines, R.s) [] OTHER -> engines)
    /\ files' = (CASE R.op = "start" -> R.files [] R.op = "command" -> [files EXCEPT ![R.f] = R.sum] [] OTHER -> files)
    /\ made' = (CASE R.op = "render" /\ R.ok -> Learn(engines[R.e], R.g) [] R.op = "command" /\ R.ok -> Learn(R.s, R.g) [] OTHER -> made)
    /\ l' = l + 1
    /\ IF l = Len(Trace) THEN PrintT("@@" \o ToJson([done |-> l])) ELSE TRUE
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
