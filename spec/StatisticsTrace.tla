--------------------------- MODULE StatisticsTrace ---------------------------
(* Judges {op:"report", hist, got}: the report printed after a history; {op:"same", with, without}. *)
EXTENDS Statistics, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
\* percentages are given in thousandths
Near(p, a, b) == LET d == p * b - a * 100000 IN (IF d < 0 THEN -d ELSE d) <= b
SameEntry(st, total, e, g) ==
    (IF e.name = g.name THEN {} ELSE {"name"})
    \cup (IF e.bytes = g.bytes /\ e.size = g.size /\ Near(g.accessed, e.bytes, e.size) THEN {} ELSE {"bytes"})
    \cup (IF e.pages = g.pages /\ g.allpages = e.size \div PAGE /\ Near(g.share, e.pages, total) /\ Near(g.used, e.bytes, e.pages * PAGE) THEN {} ELSE {"pages"})
    \cup (IF e.mixed = g.mixed THEN {} ELSE {"mixed"})
    \cup (IF /\ Len(e.redundant) = Len(g.redundant)
             /\ \A i \in DOMAIN e.redundant : e.redundant[i][1] = g.redundant[i][1] /\ Near(g.redundant[i][2], e.redundant[i][2], e.redundant[i][3])
          THEN {} ELSE {"redundant"})
Judge(st, g) ==
    LET r == Report(st) IN
    (IF r.pages = g.total THEN {} ELSE {"total"})
    \cup (IF r.left = g.left THEN {} ELSE {"left"})
    \cup (IF r.stray = g.stray THEN {} ELSE {"stray"})
    \cup (IF r.lost = g.lost THEN {} ELSE {"lost"})
    \cup (IF Len(r.entries) # Len(g.entries) THEN {"entries"}
          ELSE UNION {SameEntry(st, r.pages, r.entries[i], g.entries[i]) : i \in DOMAIN r.entries})
Bad(r) == CASE r.op = "report" -> Judge(FoldLeft(Apply, Stats0, r.hist), r.got)
            [] r.op = "same" -> IF r.without = r.with THEN {} ELSE {"answers"}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET b == Bad(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b]))
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_l
===============================================================================
