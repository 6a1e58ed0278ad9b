------------------------------ MODULE AccessTrace ------------------------------
(* Judges what Python's resources answer.  A "load" record brings a stored resource, the records after   *)
(* it are accesses to it and their results.  Results: [ok |-> value] or [exc |-> name].                  *)
EXTENDS Access
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, cur, cells
vars == <<l, cur, cells>>
\* the elements of a stored resource
Content(r) == CASE r.kind \in {"vec", "inst"} -> LET v == DecodeAll(r.types[1], r.b) IN [i \in DOMAIN v |-> Signs(r.types[1], v[i])]
                [] r.kind = "multi" -> LET v == Items(r, r.index, r.b) IN [i \in DOMAIN v |-> [k \in DOMAIN v[i] |-> <<v[i][k][1], Signs(v[i][k][1], v[i][k][2])>>]]
                [] OTHER -> r.b
S == cur.types[1]
Is(r, v) == r.got = [ok |-> v]
Fails(r, name) == r.got = [exc |-> name]
N == IF cur.kind = "inst" THEN 1 ELSE Len(cells)
Good(r) ==
    CASE r.op = "len" -> Is(r, N)
      [] r.op = "iter" -> Is(r, cells)
      [] r.op = "at" -> LET p == Position(N, r.i) IN
            IF p = -1 THEN Fails(r, "IndexError") ELSE Is(r, IF cur.kind = "raw" THEN <<cells[p + 1]>> ELSE cells[p + 1])
      [] r.op = "slice" -> IF cur.kind = "inst" THEN Fails(r, "IndexError") ELSE Is(r, Slice(cells, r.a, r.b, r.s))
      [] r.op = "numpy" -> Is(r, Table(S, Limited(Slice(cells, r.a, r.b, r.s), r.lim)))
      [] r.op = "frame" -> Is(r, Table(S, Limited(Slice(cells, r.a, r.b, r.s), r.lim)))
      [] r.op = "column" -> Is(r, [names |-> <<r.f>>, rows |-> Column(S, Slice(cells, r.a, r.b, r.s), r.f)])
      [] r.op = "table" -> Is(r, Table(S, cells))
      [] r.op = "attr" -> Is(r, Column(S, cells, r.f)[1][1])
      [] r.op = "elem" -> LET e == cells[r.i + 1] IN
            Is(r, [iter |-> e, list |-> e, tuple |-> e, dict |-> Pairs(S, e), attrs |-> e, names |-> Names(S), table |-> Table(S, <<e>>), shown |-> Pairs(S, e), unknown |-> "AttributeError"])
      [] r.op = "same" -> Is(r, TRUE)
      [] r.op = "sub_str" -> Is(r, SubStr(cells, r.i, r.sep))
      [] r.op = "sub_list" -> Is(r, Strings(cells, r.i, r.sep, <<>>, r.lsep))
      [] r.op = "sub_array" -> Is(r, Strings(cells, r.i, r.sep, <<r.size>>, <<>>))
      [] OTHER -> FALSE
TraceInit == l = 1 /\ cur = <<>> /\ cells = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ LET r == Trace[l] IN
                IF r.op = "load" THEN cur' = r /\ cells' = Content(r)
                ELSE /\ UNCHANGED <<cur, cells>>
                     /\ IF Good(r) THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> <<cur.kind \o "." \o r.op>>, exp |-> [types |-> cur.types, len |-> Len(cells)]]))
             /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
