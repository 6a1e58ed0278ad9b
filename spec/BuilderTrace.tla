---------------------------- MODULE BuilderTrace ----------------------------
(* Judges recorded histories of the real builder.  A history starts with                                *)
(*   {op:"init", files, ro}  followed by operations as in Builder, each with                            *)
(*   got      "ok" / "refused"           view     (close) what the closed resource shows                *)
(*   dump     (read) {open, res}         changed, removed   the files as they are after the operation   *)
(*   err      (pyread) ...                                                                              *)
EXTENDS Builder
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, real
vars == <<l, st, real>>

DumpBad(r, s) ==
    IF r.lang = "rs" THEN BadRsDump(s.files, r.arch, r.dump) ELSE
    IF r.lang = "cpp" THEN
        LET o == CppOpen(s.files, r.arch, "") IN
        IF o # r.dump.open THEN {IF o THEN "does_not_open" ELSE "opens"}
        ELSE IF o /\ r.dump.res # CppDump(s.files, r.arch, "") THEN {"content"} ELSE {}
    ELSE
        LET e == PyErr(s.files, r.arch, "") IN
        IF (e = {}) # r.dump.open THEN {IF e = {} THEN "py_does_not_open" ELSE "py_opens"}
        ELSE IF e = {} THEN (IF r.dump.res # PyDump(s.files, r.arch, "") THEN {"py_content"} ELSE {})
        ELSE IF r.dump.err \notin e THEN {"py_wrong_error"} ELSE {}

FileBad(s, rl) ==
    LET judged == (DOMAIN s.files \cup DOMAIN rl) \ s.pend IN
    {"file:" \o p : p \in {q \in judged : q \notin DOMAIN s.files \/ q \notin DOMAIN rl \/ s.files[q] # rl[q]}}

Bad(r, a, rl) ==
    (IF r.op \in {"read", "end"} \/ r.got = a.res THEN {} ELSE {"result"})
    \cup (IF r.op = "close" /\ r.got = "ok" /\ r.view # CloseView(a.st, r.id) THEN {"view"} ELSE {})
    \cup (IF r.op = "read" THEN DumpBad(r, a.st) ELSE {})
    \cup (IF r.snap THEN FileBad(a.st, rl) ELSE {})

Real(r) == IF ~r.snap THEN real ELSE [p \in (DOMAIN real \cup DOMAIN r.changed) \ ToSet(r.removed) |-> IF p \in DOMAIN r.changed THEN r.changed[p] ELSE real[p]]
TraceInit == l = 1 /\ st = State0(<<>>, FALSE) /\ real = <<>>
Step(r) ==
    IF r.op = "init" THEN st' = State0(r.files, r.ro) /\ real' = r.files
    ELSE LET a == Apply(st, r) rl == Real(r) b == Bad(r, a, rl) IN
         /\ IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b]))
         /\ st' = a.st
         /\ real' = rl
TraceNext == /\ l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
