------------------------------ MODULE Describe ------------------------------
(* What describe() of a C++ archive must say about the files it was opened from, as a tree:             *)
(*   [kind |-> "nostorage" | "signature" | "uninitialized" | "archive", name, failed, rows]             *)
(* rows: [name, opt, large, loaded, what, n, bytes, sub]; simple resources come before archives.        *)
EXTENDS Limits
RECURSIVE SizesOk(_, _, _)
StructSize(r) == Size(r.types[1])
PLen(files, p) == Len(files[p].b) - 16
\* elements a resource holds, as its view counts them
Count(files, pre, r) ==
    LET p == pre \o r.name IN
    CASE r.kind = "vec" -> LET n == PLen(files, p) \div StructSize(r) IN IF Structs[r.types[1]].range /\ n > 0 THEN n - 1 ELSE n
      [] r.kind = "multi" -> LET n == PLen(files, p \o "_index") \div IndexSize(r) IN IF n = 0 THEN 0 ELSE n - 1
      [] r.kind = "raw" -> PLen(files, p)
      [] OTHER -> 1
Large(files, arch, pre, i) == LET r == Archives[arch][i] IN
    r.kind \in {"vec", "multi", "raw"} /\ CppResOk(files, arch, pre, r) /\ ~Fits(arch, i, Small16(Count(files, pre, r)))
\* an archive that opens: everything mandatory is there, and nothing of it is too large
SizesOk(files, arch, pre) == \A i \in DOMAIN Archives[arch] :
    LET r == Archives[arch][i] IN
    IF r.kind = "arch" THEN r.opt \/ SizesOk(files, r.arch, pre \o r.name \o "/") ELSE ~Large(files, arch, pre, i)
OpensFully(files, arch, pre) == CppOpen(files, arch, pre) /\ SizesOk(files, arch, pre)
None == [kind |-> "none"]
RECURSIVE Told(_, _, _)
RowOf(files, arch, pre, i, sub) ==
    LET r == Archives[arch][i]
        there == IF r.kind = "arch" THEN OpensFully(files, r.arch, pre \o r.name \o "/") ELSE CppResOk(files, arch, pre, r)
        base == [name |-> r.name, opt |-> r.opt, large |-> Large(files, arch, pre, i), loaded |-> there, what |-> r.kind, n |-> 0, bytes |-> 0, sub |-> sub]
    IN IF ~there \/ r.kind = "arch" THEN base
       ELSE [base EXCEPT !.n = IF r.kind = "inst" THEN StructSize(r) ELSE Count(files, pre, r),
                         !.bytes = IF r.kind = "vec" THEN PLen(files, pre \o r.name)
                                   ELSE IF r.kind = "multi" THEN PLen(files, pre \o r.name \o "_index") ELSE 0]
Told(files, arch, pre) ==
    IF ~SignatureOk(files, arch, pre) THEN [kind |-> "signature"]
    ELSE LET is == [i \in DOMAIN Archives[arch] |-> i]
             flat == SelectSeq(is, LAMBDA i : Archives[arch][i].kind # "arch")
             subs == SelectSeq(is, LAMBDA i : Archives[arch][i].kind = "arch")
             SubOf(i) == LET r == Archives[arch][i] p == pre \o r.name \o "/" IN
                         \* an archive that does not open is not described further: the failure is that of the outermost archive
                         IF ~OpensFully(files, r.arch, p) THEN [kind |-> "uninitialized", name |-> r.arch] ELSE Told(files, r.arch, p)
         IN [kind |-> "archive", name |-> arch, failed |-> ~OpensFully(files, arch, pre),
             rows |-> [k \in DOMAIN flat |-> RowOf(files, arch, pre, flat[k], None)] \o [k \in DOMAIN subs |-> RowOf(files, arch, pre, subs[k], SubOf(subs[k]))]]
=============================================================================
