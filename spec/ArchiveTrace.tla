---------------------------- MODULE ArchiveTrace ----------------------------
(* Judges recorded archives against Format.tla.  Records:                                               *)
(*  {op:"files", arch, contents, files}   the files some builder left for these contents               *)
(*  {op:"dump", lang, arch, files, got}   what a reader presented for these files                      *)
(*       got: {open:TRUE, res} or {open:FALSE, err}                                                    *)
EXTENDS Rust
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
vars == <<l>>

BadFiles(r) ==
    LET exp == ArchiveFiles(r.arch, "", IF r.by = "rs" THEN RsContents(r.arch, r.contents) ELSE r.contents)
        got == r.files
    IN {"missing:" \o p : p \in DOMAIN exp \ DOMAIN got}
       \cup {"unexpected:" \o p : p \in DOMAIN got \ DOMAIN exp}
       \cup {"differs:" \o p : p \in {q \in DOMAIN exp \cap DOMAIN got : exp[q] # got[q]}}

BadDump(r) ==
    LET exp == IF r.lang = "cpp" THEN CppDump(r.files, r.arch, "") ELSE PyDump(r.files, r.arch, "")
        err == IF r.lang = "py" THEN PyErr(r.files, r.arch, "") ELSE {}
        opens == IF r.lang = "cpp" THEN CppOpen(r.files, r.arch, "") ELSE err = {}
    IN IF opens
       THEN IF ~r.got.open THEN {"does_not_open"}
            ELSE {"content:" \o n : n \in {m \in DOMAIN exp \cup DOMAIN r.got.res :
                    m \notin DOMAIN exp \/ m \notin DOMAIN r.got.res \/ exp[m] # r.got.res[m]}}
       ELSE IF r.got.open THEN {"opens"}
            ELSE IF r.lang = "py" /\ r.got.err \notin err THEN {"wrong_error"} ELSE {}

\*  {op:"memory", arch, contents, got}    Rust wrote to and read from memory
Bad(r) == IF r.op = "files" THEN BadFiles(r)
          ELSE IF r.op = "memory" THEN BadRsDump(ArchiveFiles(r.arch, "", RsContents(r.arch, r.contents)), r.arch, r.got)
          ELSE IF r.lang = "rs" THEN BadRsDump(r.files, r.arch, r.got) ELSE BadDump(r)
Report(r) == LET b == Bad(r) IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b]))

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ Report(Trace[l]) /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
