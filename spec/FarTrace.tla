------------------------------ MODULE FarTrace -------------------------------
(* Judges what was found far into a resource.  "load": {r, data, index} brings a stored resource; the     *)
(* records after it are {lang, op, i, n, got}.  C++ and Rust resolve optional fields and hide the closing *)
(* element of vectors with ranges.                                                                        *)
EXTENDS Far
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, cur
vars == <<l, cur>>
Hides(lang) == lang \in {"cpp", "rust"}
S == cur.r.types[1]
See(lang, T, v) == IF Hides(lang) THEN OptView(T, v) ELSE v
Good(r) ==
    CASE r.op = "size" -> LET n == IF cur.r.kind = "multi" \/ (Hides(r.lang) /\ cur.r.kind = "vec" /\ Structs[S].range) THEN Plus(r.got, 1) ELSE r.got IN
            Number(IF cur.r.kind = "multi" THEN cur.index ELSE cur.data, n, CASE cur.r.kind = "raw" -> 1 [] cur.r.kind = "multi" -> IndexSize(cur.r) [] OTHER -> Size(S))
      [] r.op = "at" -> r.got = See(r.lang, S, Element(cur.data, S, r.i))
      [] r.op = "run" -> r.got = [k \in 1..r.n |-> See(r.lang, S, Element(cur.data, S, Plus(r.i, k - 1)))]
      [] r.op = "span" -> r.got = Span(cur.data, S, r.i)
      [] r.op = "bytes" -> r.got = Window(cur.data, r.i, r.n)
      [] r.op = "item" -> LET v == Item(cur.r, cur.index, cur.data, r.i) IN r.got = [k \in DOMAIN v |-> <<v[k][1], See(r.lang, v[k][1], v[k][2])>>]
      [] OTHER -> FALSE
TraceInit == l = 1 /\ cur = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ LET r == Trace[l] IN
                IF r.op = "load" THEN cur' = r
                ELSE /\ UNCHANGED cur
                     /\ IF Good(r) THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> <<r.lang \o " " \o cur.r.kind \o "." \o r.op>>, exp |-> [types |-> cur.r.types, i |-> r.i]]))
             /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
