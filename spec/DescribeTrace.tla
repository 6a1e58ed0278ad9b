---------------------------- MODULE DescribeTrace ----------------------------
(* Records: {op:"describe", arch, files, got}  what describe() said of an archive opened from files       *)
(*          {op:"none", got}                     the same, where the storage could not be had              *)
(*          {op:"diff", expected, found, shown}  two texts (lists of lines) and the difference shown:      *)
(*                    shown[i] = <<sign, line>>, sign one of " ", "-", "+", "..."                           *)
EXTENDS Describe
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
If(c, n) == IF c THEN {n} ELSE {}

\* ---- differences: shown is a way from the expected text to the found one that skips only lines both have
Most(a, b) == IF a > b THEN a ELSE b
\* lengths of longest common subsequences, row by row
RECURSIVE Lcs(_, _, _, _)
Lcs(E, F, i, row) ==
    IF i > Len(E) THEN row[Len(F) + 1]
    ELSE LET next == FoldLeft(LAMBDA acc, j : Append(acc, IF E[i] = F[j] THEN row[j] + 1 ELSE Most(row[j + 1], acc[j])), <<0>>, [j \in DOMAIN F |-> j])
         IN Lcs(E, F, i + 1, TLCEval(next))
Common(E, F) == Lcs(E, F, 1, [j \in 1..(Len(F) + 1) |-> 0])
RECURSIVE Reach(_, _, _, _, _)
\* the positions <<i, j>> (lines taken from E and F) after the first k lines shown
Reach(E, F, S, k, at) ==
    IF k > Len(S) THEN at
    ELSE LET x == S[k]
             skip(p) == {<<p[1] + n, p[2] + n>> : n \in {m \in 1..(Len(E) - p[1]) : m <= Len(F) - p[2] /\ \A q \in 1..m : E[p[1] + q] = F[p[2] + q]}}
             from == IF k = 1 /\ x[1] # "..." THEN at \cup UNION {skip(p) : p \in at} ELSE at
             next == CASE x[1] = "..." -> UNION {skip(p) : p \in from}
                       [] x[1] = " " -> {<<p[1] + 1, p[2] + 1>> : p \in {q \in from : q[1] < Len(E) /\ q[2] < Len(F) /\ E[q[1] + 1] = x[2] /\ F[q[2] + 1] = x[2]}}
                       [] x[1] = "-" -> {<<p[1] + 1, p[2]>> : p \in {q \in from : q[1] < Len(E) /\ E[q[1] + 1] = x[2]}}
                       [] OTHER -> {<<p[1], p[2] + 1>> : p \in {q \in from : q[2] < Len(F) /\ F[q[2] + 1] = x[2]}}
         IN Reach(E, F, S, k + 1, TLCEval(next))
BadDiff(r) ==
    LET E == r.expected F == r.found S == r.shown
        changes == Cardinality({k \in DOMAIN S : S[k][1] \in {"-", "+"}})
        changed == {k \in DOMAIN S : S[k][1] \in {"-", "+"}}
    IN IF S = <<>> THEN If(E # F, "shows nothing") ELSE
       If(<<Len(E), Len(F)>> \notin Reach(E, F, S, 1, {<<0, 0>>}), "not a difference of the two")
       \cup If(changes # Len(E) + Len(F) - 2 * Common(E, F), "shows more changes than there are")
       \* a line nothing near has changed is left out
       \cup If(\E k \in DOMAIN S : S[k][1] = " " /\ \A j \in changed : j > k + 3 \/ j < k - 3, "shows lines far from any change")

\* the details of an empty view are not fixed
Same(a, b) == \/ a = b
              \/ a.what = b.what /\ a.n = 0 /\ a.loaded /\ [a EXCEPT !.bytes = 0] = [b EXCEPT !.bytes = 0]
RECURSIVE BadTree(_, _, _)
BadTree(e, g, at) ==
    IF e.kind # g.kind THEN {at \o "kind"}
    ELSE IF e.kind # "archive" THEN If(e # g, at \o "told")
    ELSE If(e.name # g.name, at \o "name") \cup If(e.failed # g.failed, at \o "failed")
         \cup (IF Len(e.rows) # Len(g.rows) THEN {at \o "rows"}
               ELSE UNION {LET a == e.rows[i] b == g.rows[i] IN
                           If(~Same([a EXCEPT !.sub = None], [b EXCEPT !.sub = None]), at \o a.name)
                           \cup (IF a.sub = None /\ b.sub = None THEN {} ELSE BadTree(a.sub, b.sub, at \o a.name \o "/")) : i \in DOMAIN e.rows})
Bad(r) == IF r.op = "diff" THEN BadDiff(r) ELSE IF r.op = "none" THEN If(r.got # [kind |-> "nostorage"], "nostorage") ELSE BadTree(Told(r.files, r.arch, ""), r.got, "")
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Bad(Trace[l]) IN (IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b, exp |-> IF Trace[l].op = "describe" THEN Told(Trace[l].files, Trace[l].arch, "") ELSE <<>>])))
             /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
