---------------------------- MODULE CommentsTrace ----------------------------
(* Judges {op:"text", lang, base, text}: a text generated from a schema with comments (and the one without: position in bases.json); {op:"docs", want, got}: documentation in Python. *)
EXTENDS Comments
Trace == ndJsonDeserialize("trace.ndjson")
Bases == JsonDeserialize("bases.json")
Codes == [i \in DOMAIN Bases |-> TLCEval(CodeOf(Bases[i].lang, Bases[i].text))]
VARIABLE l
Bad(r) == CASE r.op = "text" -> IF r.text = Bases[r.base].text \/ SameCode(Bases[r.base].lang, r.text, Codes[r.base]) THEN {} ELSE {Bases[r.base].lang}
            [] r.op = "docs" -> {r.want[i].at : i \in {i \in DOMAIN r.want : ~\E j \in DOMAIN r.got : r.got[j] = r.want[i]}}
            [] r.op = "compile" -> IF r.ok THEN {} ELSE {"compile"}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET b == Bad(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b]))
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
