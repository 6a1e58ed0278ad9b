------------------------------- MODULE Format -------------------------------
(* The on-disk format: struct layout, element encoding, resource framing, multivector index, and the   *)
(* file set of an archive.  A schema is data (model.json).  Values are 8-byte two's complement          *)
(* sequences (see Bits).  Schema texts are opaque symbols: "S:<archive>.<resource>" is the text that    *)
(* the schema prescribes for that resource.                                                             *)
EXTENDS Bits, FiniteSets, TLC, Json, SequencesExt

Model == JsonDeserialize("model.json")
Structs == Model.structs
Archives == Model.archives

Fields(S) == Structs[S].fields
RECURSIVE SumW(_, _)
SumW(fs, k) == IF k = 0 THEN 0 ELSE fs[k].w + SumW(fs, k - 1)
\* bit offset of every field of every struct, and sizes in bytes (evaluated once)
OffsetsOf == [S \in DOMAIN Structs |-> [k \in DOMAIN Fields(S) |-> SumW(Fields(S), k - 1)]]
BitsOf == [S \in DOMAIN Structs |-> SumW(Fields(S), Len(Fields(S)))]
SizeOf == [S \in DOMAIN Structs |-> (BitsOf[S] + 7) \div 8]
Size(S) == SizeOf[S]

\* a value a caller hands in: <<>> means "no value" for an optional field
Raw(f, v) == IF v = <<>> THEN f.opt ELSE v
RECURSIVE EncFields(_, _, _, _)
EncFields(S, vals, k, mem) ==
    IF k > Len(Fields(S)) THEN mem
    ELSE EncFields(S, vals, k + 1, TLCEval(Store(mem, OffsetsOf[S][k], Fields(S)[k].w, Raw(Fields(S)[k], vals[k]))))
ZeroBytes(n) == [i \in 1..n |-> 0]
Encode(S, vals) == EncFields(S, TLCEval(vals), 1, ZeroBytes(Size(S)))

\* element at byte offset base (0-based)
FieldAt(S, bytes, base, k) ==
    LET f == Fields(S)[k] IN Bytes8(Extend(FieldBits(bytes, 8 * base + OffsetsOf[S][k], f.w), f.s))
DecodeAt(S, bytes, base) == [k \in DOMAIN Fields(S) |-> FieldAt(S, bytes, base, k)]

\* what a read of a value written as v yields (fields keep their low bits)
Canon(f, v) == Bytes8(Extend(SubSeq(Bits64(Raw(f, v)), 1, f.w), f.s))
CanonVals(S, vals) == [k \in DOMAIN Fields(S) |-> Canon(Fields(S)[k], vals[k])]
\* C++ view of an optional field: <<>> iff the stored value is the constant
OptView(S, vals) == [k \in DOMAIN Fields(S) |->
    IF Fields(S)[k].opt # <<>> /\ vals[k] = Canon(Fields(S)[k], <<>>) THEN <<>> ELSE vals[k]]

Concat(ss) == FlattenSeq(ss)
EncodeAll(S, elems) == Concat([i \in DOMAIN elems |-> Encode(S, elems[i])])
DecodeAll(S, bytes) == [i \in 1..(Len(bytes) \div Size(S)) |-> DecodeAt(S, bytes, (i - 1) * Size(S))]

\* ---- framing
Frame(payload) == LE8(Len(payload)) \o payload \o ZeroBytes(8)
Small(h) == \A i \in 5..8 : h[i] = 0              \* a size TLC can hold (below 2^31 if byte 4 < 128)
HeaderOf(file) == SubSeq(file, 1, 8)
Framed(file) == /\ Len(file) >= 16
                /\ Small(HeaderOf(file)) /\ file[4] < 128
                /\ LEVal(SubSeq(file, 1, 4)) = Len(file) - 16
PayloadOf(file) == SubSeq(file, 9, Len(file) - 8)

\* ---- multivectors: an item is a sequence of <<type name, values>>
IndexSize(r) == (r.iw + 7) \div 8
TypeIndex(r, t) == (CHOOSE k \in DOMAIN r.types : r.types[k] = t) - 1
EncItem(r, item) == Concat([k \in DOMAIN item |-> <<TypeIndex(r, item[k][1])>> \o Encode(item[k][1], item[k][2])])
RECURSIVE Offs(_, _)
Offs(parts, at) == IF parts = <<>> THEN <<at>> ELSE <<at>> \o Offs(Tail(parts), at + Len(Head(parts)))
MultiPayload(r, items) == Concat([i \in DOMAIN items |-> EncItem(r, items[i])])
IndexPayload(r, items) ==
    LET offs == Offs([i \in DOMAIN items |-> EncItem(r, items[i])], 0)
    IN Concat([i \in DOMAIN offs |-> SubSeq(LE8(offs[i]), 1, IndexSize(r))])

\* ---- the files of an archive holding the given contents (a record: resource -> value; absent = no key)
SchemaSym(arch, res) == "S:" \o arch \o "." \o res
IndexSym(arch, res) == "I:" \o arch \o "." \o res
DataFile(bytes) == [k |-> "data", b |-> bytes]
SchemaFile(sym) == [k |-> "schema", b |-> sym]

Res(arch, name) == CHOOSE r \in ToSet(Archives[arch]) : r.name = name

Payload(r, v) == CASE r.kind = "inst" -> Encode(r.types[1], v)
                   [] r.kind = "vec" -> EncodeAll(r.types[1], v)
                   [] r.kind = "multi" -> MultiPayload(r, v)
                   [] OTHER -> v

ResFiles(arch, pre, r, v) ==
    (pre \o r.name) :> DataFile(Frame(Payload(r, v)))
    @@ (pre \o r.name \o ".schema") :> SchemaFile(SchemaSym(arch, r.name))
    @@ (IF r.kind = "multi"
        THEN (pre \o r.name \o "_index") :> DataFile(Frame(IndexPayload(r, v)))
             @@ (pre \o r.name \o "_index.schema") :> SchemaFile(IndexSym(arch, r.name))
        ELSE <<>>)

SignatureFiles(arch, pre) ==
    (pre \o arch \o ".archive") :> DataFile(Frame(<<>>))
    @@ (pre \o arch \o ".archive.schema") :> SchemaFile(SchemaSym(arch, ""))

RECURSIVE ArchiveFiles(_, _, _)
RECURSIVE ResListFiles(_, _, _, _)
ResListFiles(arch, pre, contents, rs) ==
    IF rs = <<>> THEN <<>>
    ELSE LET r == Head(rs) IN
         (IF r.name \notin DOMAIN contents THEN <<>>
          ELSE IF r.kind = "arch" THEN ArchiveFiles(r.arch, pre \o r.name \o "/", contents[r.name])
          ELSE ResFiles(arch, pre, r, contents[r.name]))
         @@ ResListFiles(arch, pre, contents, Tail(rs))
ArchiveFiles(arch, pre, contents) ==
    SignatureFiles(arch, pre) @@ ResListFiles(arch, pre, contents, Archives[arch])

\* ---- reading
Absent == [k |-> "absent"]
FileAt(files, p) == IF p \in DOMAIN files THEN files[p] ELSE Absent
IsData(f) == f.k = "data"
DataOk(files, p) == IsData(FileAt(files, p)) /\ Framed(files[p].b)
SchemaOk(files, p, sym) == FileAt(files, p ) = SchemaFile(sym)

\* C++: one resource is available iff data and schema are there, framed, and the schema is the expected one
CppFileOk(files, p, sym) == DataOk(files, p) /\ SchemaOk(files, p \o ".schema", sym)
CppResOk(files, arch, pre, r) ==
    /\ CppFileOk(files, pre \o r.name, SchemaSym(arch, r.name))
    /\ r.kind = "multi" => CppFileOk(files, pre \o r.name \o "_index", IndexSym(arch, r.name))
SignatureOk(files, arch, pre) == CppFileOk(files, pre \o arch \o ".archive", SchemaSym(arch, ""))

RECURSIVE CppOpen(_, _, _)
CppOpen(files, arch, pre) ==
    /\ SignatureOk(files, arch, pre)
    /\ \A i \in DOMAIN Archives[arch] :
         LET r == Archives[arch][i] IN
         r.opt \/ (IF r.kind = "arch" THEN CppOpen(files, r.arch, pre \o r.name \o "/")
                   ELSE CppResOk(files, arch, pre, r))

CppAvail(files, arch, pre, r) ==
    IF r.kind = "arch" THEN CppOpen(files, r.arch, pre \o r.name \o "/") ELSE CppResOk(files, arch, pre, r)

\* contents as the readers present them; values decoded from the bytes, never remembered
Uint(bytes, at, n) == LEVal(SubSeq(bytes, at + 1, at + (IF n > 3 THEN 3 ELSE n)))
RECURSIVE Elems(_, _, _, _)
Elems(r, data, at, end) ==
    IF at >= end THEN <<>>
    ELSE LET t == r.types[data[at + 1] + 1]
         IN << <<t, DecodeAt(t, data, at + 1)>> >> \o Elems(r, data, at + 1 + Size(t), end)
Items(r, index, data) ==
    LET n == Len(index) \div IndexSize(r)
        off(i) == Uint(index, (i - 1) * IndexSize(r), IndexSize(r))
    IN [i \in 1..(IF n = 0 THEN 0 ELSE n - 1) |-> Elems(r, data, off(i), off(i + 1))]

Stored(files, pre, r) ==
    LET p == PayloadOf(files[pre \o r.name].b) IN
    CASE r.kind = "inst" -> DecodeAt(r.types[1], p, 0)
      [] r.kind = "vec" -> DecodeAll(r.types[1], p)
      [] r.kind = "multi" -> Items(r, PayloadOf(files[pre \o r.name \o "_index"].b), p)
      [] OTHER -> p

\* how C++ presents it: optional fields resolved, the sentinel of range structs hidden
CppView(r, v) ==
    CASE r.kind = "inst" -> OptView(r.types[1], v)
      [] r.kind = "vec" -> LET all == [i \in DOMAIN v |-> OptView(r.types[1], v[i])] IN
             IF Structs[r.types[1]].range /\ Len(all) > 0 THEN SubSeq(all, 1, Len(all) - 1) ELSE all
      [] r.kind = "multi" -> [i \in DOMAIN v |-> [k \in DOMAIN v[i] |-> <<v[i][k][1], OptView(v[i][k][1], v[i][k][2])>>]]
      [] OTHER -> v

RECURSIVE CppDump(_, _, _)
CppDump(files, arch, pre) ==
    [n \in {Archives[arch][i].name : i \in {j \in DOMAIN Archives[arch] : CppAvail(files, arch, pre, Archives[arch][j])}} |->
        LET r == Res(arch, n) IN
        IF r.kind = "arch" THEN CppDump(files, r.arch, pre \o n \o "/") ELSE CppView(r, Stored(files, pre, r))]

\* Python: the set of exceptions opening may raise (empty = opens); kinds "missing", "mismatch", "corrupt"
PyCorrupt(files, p, elemSize, exact) ==
    LET f == files[p].b IN
    ~Framed(f) \/ (elemSize > 0 /\ (IF exact THEN Len(PayloadOf(f)) # elemSize ELSE Len(PayloadOf(f)) % elemSize # 0))
IsAbsent(files, p) == FileAt(files, p).k = "absent"
DirIsAbsent(files, pre) == \A p \in DOMAIN files : ~IsPrefix(pre, p)

PyResErr(files, arch, pre, r) ==
    LET p == pre \o r.name
        miss == IF r.opt THEN {} ELSE {"missing"}
        data == IF r.kind = "multi"
                THEN IF IsAbsent(files, p \o "_index") \/ IsAbsent(files, p) THEN miss
                     ELSE IF PyCorrupt(files, p \o "_index", IndexSize(r), FALSE) \/ PyCorrupt(files, p, 0, FALSE) THEN {"corrupt"} ELSE {}
                ELSE IF IsAbsent(files, p) THEN miss
                     ELSE IF PyCorrupt(files, p, IF r.kind = "raw" THEN 0 ELSE Size(r.types[1]), r.kind = "inst") THEN {"corrupt"} ELSE {}
    IN IF IsAbsent(files, p \o ".schema") THEN miss
       ELSE (IF SchemaOk(files, p \o ".schema", SchemaSym(arch, r.name)) THEN {} ELSE {"mismatch"}) \cup data
PyResNone(files, pre, r) ==
    LET p == pre \o r.name IN
    \/ IsAbsent(files, p \o ".schema") \/ IsAbsent(files, p)
    \/ r.kind = "multi" /\ IsAbsent(files, p \o "_index")
PySigErr(files, arch, pre) ==
    LET p == pre \o arch \o ".archive" IN
    IF IsAbsent(files, p \o ".schema") \/ IsAbsent(files, p) THEN {"missing"}
    ELSE (IF SchemaOk(files, p \o ".schema", SchemaSym(arch, "")) THEN {} ELSE {"mismatch"})
         \cup (IF PyCorrupt(files, p, 0, FALSE) THEN {"corrupt"} ELSE {})

RECURSIVE PyErr(_, _, _)
PyErr(files, arch, pre) ==
    PySigErr(files, arch, pre) \cup
    UNION {LET r == Archives[arch][i] IN
           IF r.kind # "arch" THEN PyResErr(files, arch, pre, r)
           ELSE IF DirIsAbsent(files, pre \o r.name \o "/") THEN (IF r.opt THEN {} ELSE {"missing"})
           ELSE PyErr(files, r.arch, pre \o r.name \o "/") : i \in DOMAIN Archives[arch]}

RECURSIVE PyDump(_, _, _)
PyDump(files, arch, pre) ==
    LET there(r) == IF r.kind = "arch" THEN ~DirIsAbsent(files, pre \o r.name \o "/") ELSE ~PyResNone(files, pre, r)
    IN [n \in {Archives[arch][i].name : i \in {j \in DOMAIN Archives[arch] : there(Archives[arch][j])}} |->
        LET r == Res(arch, n) IN
        IF r.kind = "arch" THEN PyDump(files, r.arch, pre \o n \o "/") ELSE Stored(files, pre, r)]
=============================================================================
