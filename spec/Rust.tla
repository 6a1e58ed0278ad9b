-------------------------------- MODULE Rust --------------------------------
(* What the Rust library makes of files, and the files it writes.                                        *)
(* Opening reports an error (never panics): the sets below hold every error that may be reported, kinds   *)
(* "missing" (a file is not there), "size" (framing or element size), "mismatch" (schema).               *)
(* An archive is opened with all its resources or not at all; only what is completely absent is none.     *)
EXTENDS Format

RsGone(files, p) == FileAt(files, p).k = "absent"
RsFileErr(files, p, sym) ==
    (IF RsGone(files, p) THEN {"missing"} ELSE IF ~DataOk(files, p) THEN {"size"} ELSE {})
    \cup (IF RsGone(files, p \o ".schema") THEN {"missing"} ELSE IF ~SchemaOk(files, p \o ".schema", sym) THEN {"mismatch"} ELSE {})
PayLen(files, p) == Len(PayloadOf(files[p].b))
RsSizeErr(files, p, r) ==
    IF ~DataOk(files, p) THEN {}
    ELSE CASE r.kind = "inst" -> IF PayLen(files, p) < Size(r.types[1]) THEN {"size"} ELSE {}
           [] r.kind = "vec" -> IF PayLen(files, p) % Size(r.types[1]) # 0 THEN {"size"} ELSE {}
           [] OTHER -> {}
RsIndexErr(files, p, r) ==
    IF DataOk(files, p) /\ (PayLen(files, p) % IndexSize(r) # 0 \/ PayLen(files, p) = 0) THEN {"size"} ELSE {}
RsResGone(files, pre, r) == RsGone(files, pre \o r.name) /\ (r.kind = "multi" => RsGone(files, pre \o r.name \o "_index"))
RsResErr(files, arch, pre, r) ==
    LET p == pre \o r.name IN
    IF RsResGone(files, pre, r) THEN (IF r.opt THEN {} ELSE {"missing"})
    ELSE RsFileErr(files, p, SchemaSym(arch, r.name)) \cup RsSizeErr(files, p, r)
         \cup (IF r.kind = "multi" THEN RsFileErr(files, p \o "_index", IndexSym(arch, r.name)) \cup RsIndexErr(files, p \o "_index", r) ELSE {})
RECURSIVE RsErr(_, _, _)
RsErr(files, arch, pre) ==
    RsFileErr(files, pre \o arch \o ".archive", SchemaSym(arch, "")) \cup
    UNION {LET r == Archives[arch][i] IN
           IF r.kind # "arch" THEN RsResErr(files, arch, pre, r)
           ELSE IF RsGone(files, pre \o r.name \o "/" \o r.arch \o ".archive") THEN (IF r.opt THEN {} ELSE {"missing"})
           ELSE RsErr(files, r.arch, pre \o r.name \o "/") : i \in DOMAIN Archives[arch]}
RECURSIVE RsDump(_, _, _)
RsDump(files, arch, pre) ==
    LET there(r) == IF r.kind = "arch" THEN ~RsGone(files, pre \o r.name \o "/" \o r.arch \o ".archive") ELSE ~RsResGone(files, pre, r)
    IN [n \in {Archives[arch][i].name : i \in {j \in DOMAIN Archives[arch] : there(Archives[arch][j])}} |->
        LET r == Res(arch, n) IN
        IF r.kind = "arch" THEN RsDump(files, r.arch, pre \o n \o "/") ELSE CppView(r, Stored(files, pre, r))]

\* ---- two things the library is known not to do (known-findings.json)
RECURSIVE SomeRes(_, _, _, _)
SomeRes(P(_, _), files, arch, pre) ==
    \E i \in DOMAIN Archives[arch] : LET r == Archives[arch][i] IN
        IF r.kind = "arch" THEN SomeRes(P, files, r.arch, pre \o r.name \o "/") ELSE DataOk(files, pre \o r.name) /\ P(r, PayLen(files, pre \o r.name))
IsRangeVec(r) == r.kind = "vec" /\ Structs[r.types[1]].range
EmptyRangeVec(files, arch) == SomeRes(LAMBDA r, n : IsRangeVec(r) /\ n = 0, files, arch, "")
ShortInstance(files, arch) == SomeRes(LAMBDA r, n : r.kind = "inst" /\ n < Size(r.types[1]), files, arch, "")
\* instances longer than their structure: not prescribed
LongInstance(files, arch) == SomeRes(LAMBDA r, n : r.kind = "inst" /\ n > Size(r.types[1]), files, arch, "")

\* g: what opening did, {open, res} or {open, err}
BadRsDump(files, arch, g) ==
    LET err == RsErr(files, arch, "") exp == RsDump(files, arch, "") IN
    IF LongInstance(files, arch) THEN IF ~g.open /\ g.err = "panic" THEN {"panic"} ELSE {}
    ELSE IF err = {}
    THEN IF ~g.open THEN (IF g.err = "size" /\ EmptyRangeVec(files, arch) THEN {"empty range vector"} ELSE {"does_not_open"})
         ELSE {"content:" \o n : n \in {m \in DOMAIN exp \cup DOMAIN g.res : m \notin DOMAIN exp \/ m \notin DOMAIN g.res \/ exp[m] # g.res[m]}}
    ELSE IF g.open THEN {"opens"}
         ELSE IF g.err \in err THEN {}
         ELSE IF g.err = "panic" /\ ShortInstance(files, arch) THEN {"short instance"}
         ELSE IF g.err = "size" /\ EmptyRangeVec(files, arch) THEN {"empty range vector"}
         ELSE {"wrong_error"}

\* ---- writing: an empty vector of range structs is stored with one element, the end of all ranges
RsValue(r, v) == IF IsRangeVec(r) /\ v = <<>> THEN << [k \in DOMAIN Fields(r.types[1]) |-> ZeroBytes(8)] >> ELSE v
RECURSIVE RsContents(_, _)
RsContents(arch, contents) ==
    [n \in DOMAIN contents |-> LET r == Res(arch, n) IN IF r.kind = "arch" THEN RsContents(r.arch, contents[n]) ELSE RsValue(r, contents[n])]
=============================================================================
