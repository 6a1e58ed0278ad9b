--------------------------------- MODULE Go ---------------------------------
(* What generated Go code shows of an archive's files.  Go opens what is there: a resource whose file is *)
(* missing is closed, one that is too short for its frame, or whose schema is missing, empty or another  *)
(* one, makes opening fail; resources are tried in the order of their declaration.  Names: generated Go  *)
(* code writes some_name as SomeName (GoNames).                                                          *)
EXTENDS About
GoNames == JsonDeserialize("names.json")
Schema0(files, p) == LET f == FileAt(files, p \o ".schema") IN IF f = Absent THEN "can't open schema for resource" ELSE IF f.b = "?0" THEN "schema for resource is empty" ELSE ""
\* "" if the file can be used, otherwise the error
Usable(files, p) == IF p \notin DOMAIN files THEN "can't open flatdata resource"
                    ELSE IF Len(files[p].b) < 16 THEN "invalid flatdata resource" ELSE Schema0(files, p)
Cant == "can't open flatdata resource"
Fatal(e) == e \notin {"", Cant}
RECURSIVE GoError(_, _, _, _)
ResError(files, arch, pre, r) ==
    LET p == pre \o r.name
        d == Usable(files, p)
        x == IF r.kind = "multi" THEN Usable(files, p \o "_index") ELSE ""
    IN IF r.kind = "arch" THEN GoError(files, r.arch, p \o "/", Archives[r.arch])
       ELSE IF Fatal(d) THEN d ELSE IF Fatal(x) THEN x
       ELSE IF d = "" /\ x = "" /\ files[p \o ".schema"].b # SchemaSym(arch, r.name) THEN "schemas didn't match" ELSE ""
\* why opening fails ("" if it does not)
GoError(files, arch, pre, rs) == IF rs = <<>> THEN "" ELSE LET e == ResError(files, arch, pre, Head(rs)) IN IF e # "" THEN e ELSE GoError(files, arch, pre, Tail(rs))
GoOpen(files, pre, r) == LET p == pre \o r.name IN r.kind = "arch" \/ (p \in DOMAIN files /\ (r.kind = "multi" => (p \o "_index") \in DOMAIN files))
RECURSIVE GoBytes(_, _, _)
GoBytesOf(files, pre, r) == IF r.kind = "arch" THEN GoBytes(files, r.arch, pre \o r.name \o "/") ELSE IF GoOpen(files, pre, r) THEN FileSize(files, pre \o r.name) ELSE 0
GoBytes(files, arch, pre) == SumUp([i \in DOMAIN Archives[arch] |-> GoBytesOf(files, pre, Archives[arch][i])])
\* elements: type, values, which are below zero (and not numbers of 64 bits), first byte in the file, and what they say of themselves
Elem(t, b, at) == LET v == DecodeAt(t, b, at) IN [t |-> GoNames[t], v |-> v, neg |-> [k \in DOMAIN v |-> Fields(t)[k].s /\ v[k][8] >= 128], at |-> at, name |-> t, names |-> [k \in DOMAIN Fields(t) |-> Fields(t)[k].name], shown |-> v]
VecElem(r, b, i) == Elem(r.types[1], b, 8 + i * Size(r.types[1]))
RECURSIVE Steps(_, _, _)
Steps(a, b, s) == IF a > b THEN <<>> ELSE <<a>> \o Steps(a + s, b, s)
SliceOf(r, b, s) == LET is == Steps(s[1], s[2], s[3]) IN [k \in DOMAIN is |-> VecElem(r, b, is[k])]
\* a multivector's items: type and position of every element
RECURSIVE Parts(_, _, _, _)
Parts(r, b, at, end) == IF at >= end THEN <<>> ELSE LET t == r.types[b[at + 1] + 1] IN << <<t, at + 1>> >> \o Parts(r, b, at + 1 + Size(t), end)
ItemParts(files, pre, r) ==
    LET b == files[pre \o r.name].b
        ix == PayloadOf(files[pre \o r.name \o "_index"].b)
        n == Len(ix) \div IndexSize(r)
        off(i) == 8 + Uint(ix, (i - 1) * IndexSize(r), IndexSize(r))
    IN [i \in 1..(IF n = 0 THEN 0 ELSE n - 1) |-> Parts(r, b, off(i), off(i + 1))]
ItemElems(b, ps) == [k \in DOMAIN ps |-> Elem(ps[k][1], b, ps[k][2])]
\* the same if elements of one type were one object that moves on
LastOf(ps, t) == LET ks == {k \in DOMAIN ps : ps[k][1] = t} IN ps[CHOOSE k \in ks : \A j \in ks : j <= k]
SharedElems(b, ps) == [k \in DOMAIN ps |-> Elem(ps[k][1], b, LastOf(ps, ps[k][1])[2])]
\* what a resource says of itself
GoType(S) == [name |-> GoNames[S], fields |-> TypeShown(S).fields]
GoTold(files, pre, r, n) == [container |-> Container(r.kind), n |-> n, bytes |-> FileSize(files, pre \o r.name),
                             types |-> [k \in DOMAIN r.types |-> GoType(r.types[k])], index |-> IF r.kind = "multi" THEN <<IndexShown(r)>> ELSE <<>>]
RECURSIVE AllOpen(_, _, _)
AllOpen(files, arch, pre) == \A i \in DOMAIN Archives[arch] : LET r == Archives[arch][i] IN IF r.kind = "arch" THEN AllOpen(files, r.arch, pre \o r.name \o "/") ELSE GoOpen(files, pre, r)
RECURSIVE GoWhole(_, _, _, _)
\* what an archive says of itself; extra: how much multivectors are said to be longer
GoWhole(files, arch, pre, extra) ==
    [name |-> GoNames[arch], container |-> "Archive", bytes |-> GoBytes(files, arch, pre),
     parts |-> [i \in DOMAIN Archives[arch] |-> LET r == Archives[arch][i] IN
         IF r.kind = "arch" THEN GoWhole(files, r.arch, pre \o r.name \o "/", extra)
         ELSE GoTold(files, pre, r, Number(files, pre, r) + (IF r.kind = "multi" /\ FileSize(files, pre \o r.name \o "_index") > 16 THEN extra ELSE 0))]]
=============================================================================
