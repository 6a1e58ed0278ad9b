-------------------------------- MODULE Access --------------------------------
(* Python's reading access: sequences with indexes and slices, tables of fields, strings in raw data.   *)
(* An optional number (of a slice, a limit) is <<>> or <<n>>.  Positions are 0-based as in Python.      *)
EXTENDS Format

Lo(x, y) == IF x < y THEN x ELSE y
Hi(x, y) == IF x < y THEN y ELSE x
\* ---- indexes: the position meant, or -1
Position(n, i) == IF i >= 0 THEN (IF i < n THEN i ELSE -1) ELSE (IF i + n >= 0 THEN i + n ELSE -1)
\* ---- slices
StepOf(s) == IF s = <<>> THEN 1 ELSE s[1]
Bound(n, x, st, dflt) ==
    LET lower == IF st > 0 THEN 0 ELSE -1
        upper == IF st > 0 THEN n ELSE n - 1
    IN IF x = <<>> THEN (IF dflt = "first" THEN (IF st > 0 THEN lower ELSE upper) ELSE (IF st > 0 THEN upper ELSE lower))
       ELSE IF x[1] < 0 THEN Hi(x[1] + n, lower) ELSE Lo(x[1], upper)
Positions(n, a, b, s) ==
    LET st == StepOf(s)
        from == Bound(n, a, st, "first")
        to == Bound(n, b, st, "last")
        cnt == IF st > 0 THEN (to - from + st - 1) \div st ELSE (from - to - st - 1) \div (-st)
    IN [k \in 1..Hi(0, cnt) |-> from + (k - 1) * st]
Slice(v, a, b, s) == LET p == Positions(Len(v), a, b, s) IN [k \in DOMAIN p |-> v[p[k] + 1]]
Limited(v, lim) == IF lim = <<>> THEN v ELSE SubSeq(v, 1, Lo(Len(v), lim[1]))

\* ---- fields of elements; a number below zero has a ninth byte, so that it is not one of 64 bits
Signs(S, e) == [k \in DOMAIN e |-> IF Fields(S)[k].s /\ e[k][8] >= 128 THEN Append(e[k], 1) ELSE e[k]]
Names(S) == [k \in DOMAIN Fields(S) |-> Fields(S)[k].name]
Pairs(S, e) == [k \in DOMAIN e |-> <<Names(S)[k], e[k]>>]
Column(S, v, f) == LET k == CHOOSE j \in DOMAIN Fields(S) : Fields(S)[j].name = f IN [i \in DOMAIN v |-> <<v[i][k]>>]
Table(S, v) == [names |-> Names(S), rows |-> v]

\* ---- raw data
At(p, i, sep) == i + Len(sep) <= Len(p) /\ SubSeq(p, i + 1, i + Len(sep)) = sep
RECURSIVE Find(_, _, _)
Find(p, i, sep) == IF i >= Len(p) THEN Len(p) ELSE IF At(p, i, sep) THEN i ELSE Find(p, i + 1, sep)
SubStr(p, i, sep) == SubSeq(p, i + 1, Find(p, i, sep))
\* the strings that begin at i and are each ended by a separator; at most cnt (<<>> = all), up to a list separator (<<>> = none)
RECURSIVE Strings(_, _, _, _, _)
Strings(p, i, sep, cnt, lsep) ==
    IF i >= Len(p) \/ cnt = <<0>> \/ (lsep # <<>> /\ At(p, i, lsep)) THEN <<>>
    ELSE LET e == Find(p, i, sep) IN
         IF e = Len(p) THEN <<>>
         ELSE <<SubSeq(p, i + 1, e)>> \o Strings(p, e + Len(sep), sep, IF cnt = <<>> THEN <<>> ELSE <<cnt[1] - 1>>, lsep)
=============================================================================
