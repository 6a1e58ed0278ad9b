----------------------------- MODULE CrashTrace -----------------------------
(* What writers that were stopped left behind, and what readers make of it.  Records:                    *)
(*  {op:"tree", arch, contents, done, files, cpp, py [, rs]}: the files after a stop (or the end), the     *)
(*     resources whose writing call had returned (paths), and what the readers presented                   *)
(*  {op:"big", done, files}: the same for files too large to spell out: path -> [len, hdr, final, sym]     *)
EXTENDS Rust
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
vars == <<l>>

\* everything a reader shows is the complete final value
RECURSIVE Wrong(_, _, _, _)
Wrong(arch, got, fin, pre) ==
    UNION {IF n \notin DOMAIN fin THEN {"exposes:" \o pre \o n}
           ELSE LET r == Res(arch, n) IN
                IF r.kind = "arch" THEN Wrong(r.arch, got[n], fin[n], pre \o n \o "/")
                ELSE IF got[n] # fin[n] THEN {"partial:" \o pre \o n} ELSE {} : n \in DOMAIN got}
\* everything finished is shown
RECURSIVE Shown(_, _, _)
Shown(arch, got, pre) ==
    UNION {LET r == Res(arch, n) IN IF r.kind = "arch" THEN Shown(r.arch, got[n], pre \o n \o "/") ELSE {pre \o n} : n \in DOMAIN got}

BadTree(r) ==
    LET final == ArchiveFiles(r.arch, "", IF r.by = "rs" THEN RsContents(r.arch, r.contents) ELSE r.contents)
        finCpp == CppDump(final, r.arch, "")
        finPy == PyDump(final, r.arch, "")
        cppOpens == CppOpen(r.files, r.arch, "")
        cpp == IF cppOpens THEN CppDump(r.files, r.arch, "") ELSE <<>>
        pyOpens == PyErr(r.files, r.arch, "") = {}
        py == IF pyOpens THEN PyDump(r.files, r.arch, "") ELSE <<>>
        lost(shown) == {"lost:" \o n : n \in ToSet(r.done) \ shown}
    IN  \* the files themselves, as the format defines their meaning
        {"files " \o x : x \in Wrong(r.arch, cpp, finCpp, "") \cup Wrong(r.arch, py, finPy, "")}
        \cup (IF r.done = <<>> THEN {} ELSE {"files " \o x : x \in lost(IF cppOpens THEN Shown(r.arch, cpp, "") ELSE {})})
        \* the real readers
        \cup (IF r.cpp.open THEN {"cpp " \o x : x \in Wrong(r.arch, r.cpp.res, finCpp, "") \cup lost(Shown(r.arch, r.cpp.res, ""))}
              ELSE (IF r.done # <<>> THEN {"cpp does not open"} ELSE {}) \cup (IF "err" \in DOMAIN r.cpp /\ r.cpp.err = "crash" THEN {"cpp reader crashes"} ELSE {}))
        \cup (IF "rs" \notin DOMAIN r THEN {}
              ELSE {"rs " \o x : x \in BadRsDump(r.files, r.arch, r.rs) \cup
                    (IF r.rs.open THEN Wrong(r.arch, r.rs.res, RsDump(final, r.arch, ""), "") \cup lost(Shown(r.arch, r.rs.res, "")) ELSE {})})
        \cup (IF r.py.open THEN {"py " \o x : x \in Wrong(r.arch, r.py.res, finPy, "")}
              ELSE IF r.py.err \notin {"missing", "mismatch", "corrupt"} THEN {"py fails with " \o r.py.err} ELSE {})

\* large files: a file that looks complete is complete
BigHdr(f) == /\ \A i \in 5..8 : f.hdr[i] = 0
             /\ f.len >= 16 /\ LEVal(SubSeq(f.hdr, 1, 4)) = f.len - 16
BigLooks(r, p) == p \in DOMAIN r.files /\ (p \o ".schema") \in DOMAIN r.files /\ r.files[p \o ".schema"].sym = r.schemas[p] /\ BigHdr(r.files[p])
BadBig(r) == {"partial:" \o p : p \in {q \in DOMAIN r.schemas : BigLooks(r, q) /\ ~r.files[q].final}}
             \cup {"lost:" \o p : p \in {q \in ToSet(r.done) : ~BigLooks(r, q)}}

Bad(r) == IF r.op = "tree" THEN BadTree(r) ELSE BadBig(r)
Report(r) == LET b == Bad(r) IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b]))
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ Report(Trace[l]) /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
