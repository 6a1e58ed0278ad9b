------------------------------- MODULE GoTrace -------------------------------
(* Judges {k:"open", arch, files, slices, got}: what Go shows of the files, and {k:"const", want, got}.  *)
(* "closing entry counted" and "objects shared" name the two ways in which multivectors are known to be  *)
(* shown wrongly (and "absent resource described" that describing an archive without one panics); any- *)
(* thing else is named otherwise.                                                                        *)
EXTENDS Go
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
If(c, n) == IF c THEN {n} ELSE {}
Known2(got, right, wrong, known, other) == IF got = right THEN {} ELSE IF got = wrong THEN {known} ELSE {other}
RECURSIVE BadRes(_, _, _, _, _)
Plus(files, pre, r) == Number(files, pre, r) + (IF FileSize(files, pre \o r.name \o "_index") > 16 THEN 1 ELSE 0)
BadOne(files, arch, pre, r, g, slices) ==
    LET b == files[pre \o r.name].b
        n == Number(files, pre, r)
    IN If(g.opt # r.opt, "optional") \cup If(g.open # GoOpen(files, pre, r), "open") \cup
       (IF r.kind = "arch" THEN If(g.bytes # GoBytes(files, r.arch, pre \o r.name \o "/"), "bytes") \cup BadRes(files, r.arch, pre \o r.name \o "/", g.res, <<>>)
        ELSE IF ~GoOpen(files, pre, r) \/ ~g.open THEN {}
        ELSE If(g.bytes # FileSize(files, pre \o r.name), "bytes") \cup
             (IF r.kind = "multi"
              THEN LET ps == ItemParts(files, pre, r)
                   IN Known2(g.n, n, Plus(files, pre, r), "closing entry counted", "length")
                      \cup Known2(g.text, GoTold(files, pre, r, n), GoTold(files, pre, r, Plus(files, pre, r)), "closing entry counted", "text")
                      \cup Known2(g.items, [i \in DOMAIN ps |-> ItemElems(b, ps[i])], [i \in DOMAIN ps |-> SharedElems(b, ps[i])], "objects shared", "items")
              ELSE If(g.n # n, "length") \cup If(g.text # GoTold(files, pre, r, n), "text") \cup
                   (IF r.kind = "raw" THEN If(g.raw # PayloadOf(b), "raw")
                    ELSE If(g.elems # [i \in 1..n |-> VecElem(r, b, i - 1)], "elements")
                         \cup (IF r.kind = "vec" /\ r.name \in DOMAIN slices
                               THEN If(g.slices # [k \in DOMAIN slices[r.name] |-> SliceOf(r, b, slices[r.name][k])], "slices") ELSE {}))))
BadRes(files, arch, pre, res, slices) ==
    If(DOMAIN res # {Archives[arch][i].name : i \in DOMAIN Archives[arch]}, "resources")
    \cup UNION {BadOne(files, arch, pre, Archives[arch][i], res[Archives[arch][i].name], slices) : i \in {j \in DOMAIN Archives[arch] : Archives[arch][j].name \in DOMAIN res}}
BadOpen(r) ==
    LET e == GoError(r.files, r.arch, "", Archives[r.arch]) IN
    IF r.got.err # e THEN {"opening"}
    ELSE IF e # "" THEN {}
    ELSE BadRes(r.files, r.arch, "", r.got.res, r.slices)
         \cup If(r.got.bytes # GoBytes(r.files, r.arch, ""), "archive bytes") \cup If(~r.got.closed, "closed")
         \cup (IF AllOpen(r.files, r.arch, "")
               THEN Known2(r.got.text, <<GoWhole(r.files, r.arch, "", 0)>>, <<GoWhole(r.files, r.arch, "", 1)>>, "closing entry counted", "archive text") ELSE {})
\* describing the archive failed altogether
BadSaid(r) == IF AllOpen(r.files, r.arch, "") THEN {"archive text"} ELSE {"absent resource described"}
Bad(r) == IF r.k = "said" THEN BadSaid(r) ELSE IF r.k = "const" THEN If(r.got # r.want, "constant") ELSE BadOpen(r)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ LET b == Bad(Trace[l]) IN (IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b])))
             /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
