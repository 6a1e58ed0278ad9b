-------------------------------- MODULE About --------------------------------
(* What a Python archive tells about itself: the table of its resources (its signature first, then the  *)
(* declared ones in order), sizes, names, schemas, and of every resource its container, its sizes and   *)
(* the layout of its element types.  Sizes in bytes are those of whole files; an archive's is the sum   *)
(* over its rows.  Files are intact; optional resources may be missing.                                 *)
EXTENDS Format
PyNames == JsonDeserialize("names.json")          \* struct -> the name of its class
Container(k) == CASE k = "vec" -> "Vector" [] k = "multi" -> "Multivector" [] k = "inst" -> "Instance" [] k = "raw" -> "RawData" [] OTHER -> "Archive"
FileSize(files, p) == Len(files[p].b)
There(files, pre, r) == LET p == pre \o r.name IN
    CASE r.kind = "arch" -> (p \o "/" \o r.arch \o ".archive") \in DOMAIN files
      [] r.kind = "multi" -> p \in DOMAIN files /\ (p \o "_index") \in DOMAIN files
      [] OTHER -> p \in DOMAIN files
Number(files, pre, r) == LET p == pre \o r.name IN
    CASE r.kind = "vec" -> (FileSize(files, p) - 16) \div Size(r.types[1])
      [] r.kind = "multi" -> LET n == (FileSize(files, p \o "_index") - 16) \div IndexSize(r) IN IF n = 0 THEN 0 ELSE n - 1
      [] r.kind = "inst" -> 1
      [] r.kind = "raw" -> FileSize(files, p) - 16
      [] OTHER -> Len(Archives[r.arch]) + 1
RECURSIVE Total(_, _, _)
RECURSIVE SumUp(_)
SumUp(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumUp(Tail(s))
ByteSize(files, pre, r) == IF ~There(files, pre, r) THEN 0
                           ELSE IF r.kind = "arch" THEN Total(files, r.arch, pre \o r.name \o "/") ELSE FileSize(files, pre \o r.name)
Total(files, arch, pre) == FileSize(files, pre \o arch \o ".archive") + SumUp([i \in DOMAIN Archives[arch] |-> ByteSize(files, pre, Archives[arch][i])])
Row(files, pre, r) == LET t == There(files, pre, r) IN
    [name |-> r.name, type |-> Container(r.kind), opt |-> r.opt, there |-> t, bytes |-> ByteSize(files, pre, r), n |-> IF t THEN Number(files, pre, r) ELSE 0]
Signature(files, arch, pre) == LET s == FileSize(files, pre \o arch \o ".archive") IN
    [name |-> arch \o ".archive", type |-> "RawData", opt |-> FALSE, there |-> TRUE, bytes |-> s, n |-> s - 16]
\* the layout of a struct: name, first bit, width, signedness of each field
TypeShown(S) == [name |-> PyNames[S], fields |-> [k \in DOMAIN Fields(S) |-> <<Fields(S)[k].name, OffsetsOf[S][k], Fields(S)[k].w, Fields(S)[k].s>>]]
IndexShown(r) == [fields |-> << <<"value", 0, r.iw, FALSE>> >>]
Shown(files, pre, r) ==
    [name |-> r.name, container |-> Container(r.kind), n |-> Number(files, pre, r), bytes |-> ByteSize(files, pre, r),
     types |-> [k \in DOMAIN r.types |-> TypeShown(r.types[k])], index |-> IF r.kind = "multi" THEN <<IndexShown(r)>> ELSE <<>>]
RECURSIVE Told(_, _, _)
Told(files, arch, pre) ==
    LET rs == Archives[arch]
        flat == SelectSeq(rs, LAMBDA r : r.kind # "arch")
        here == SelectSeq(flat, LAMBDA r : There(files, pre, r))
        subs == SelectSeq(rs, LAMBDA r : r.kind = "arch" /\ There(files, pre, r))
    IN [name |-> arch, rows |-> <<Signature(files, arch, pre)>> \o [i \in DOMAIN rs |-> Row(files, pre, rs[i])],
        bytes |-> Total(files, arch, pre), n |-> Len(rs) + 1, listed |-> {rs[i].name : i \in DOMAIN rs},
        schema |-> SchemaSym(arch, ""), schemas |-> [i \in DOMAIN flat |-> SchemaSym(arch, flat[i].name)],
        shown |-> [i \in DOMAIN here |-> Shown(files, pre, here[i])],
        subs |-> [i \in DOMAIN subs |-> Told(files, subs[i].arch, pre \o subs[i].name \o "/")]]
=============================================================================
