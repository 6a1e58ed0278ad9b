------------------------------ MODULE Statistics ------------------------------
(* Statistics of data access (C++, on demand): which bytes of which mapping were read, and the report of    *)
(* it.  Memory is numbered; a mapping begins at `at` and has `size` bytes; mappings do not overlap.         *)
(* state: open: mappings that are registered (by where they begin), closed: those that were (in the order   *)
(* of their end), stray: bytes read elsewhere, lost: ends of mappings that were not registered.             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
HEAD == 8          \* a resource begins with its size
PAGE == 4096
MOST == 255        \* largest structure looked at
Stats0 == [open |-> <<>>, closed |-> <<>>, stray |-> 0, lost |-> 0]
Fresh(name, size) == [name |-> name, size |-> size, refs |-> 1, bytes |-> {}, sizes |-> <<>>, off |-> 0]
Without(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Register(st, name, at, size) ==
    IF at \in DOMAIN st.open THEN [st EXCEPT !.open[at].refs = @ + 1]
    ELSE [st EXCEPT !.open = (at :> Fresh(name, size)) @@ @]
Deregister(st, at) ==
    IF at \notin DOMAIN st.open THEN [st EXCEPT !.lost = @ + 1]
    ELSE IF st.open[at].refs > 1 THEN [st EXCEPT !.open[at].refs = @ - 1]
    ELSE [st EXCEPT !.open = Without(@, at), !.closed = Append(@, st.open[at])]
Within(st, at, n) == {m \in DOMAIN st.open : m <= at /\ at + n <= m + st.open[m].size}
\* n bytes are read, `pos` bytes behind the beginning of a structure of `size` bytes (0: of no structure)
Count(f, x) == IF x \in DOMAIN f THEN [f EXCEPT ![x] = @ + 1] ELSE (x :> 1) @@ f
Read(st, at, n, pos, size) ==
    IF n = 0 THEN st
    ELSE IF Within(st, at, n) = {} THEN [st EXCEPT !.stray = @ + n]
    ELSE LET m == CHOOSE m \in Within(st, at, n) : TRUE
             s == [st EXCEPT !.open[m].bytes = @ \cup (at - m)..(at - m + n - 1)]
         IN IF size = 0 \/ size > MOST \/ at < m + HEAD THEN s
            ELSE [s EXCEPT !.open[m].sizes = Count(@, size),
                           !.open[m].off = IF (at - pos - m - HEAD) % size = 0 THEN @ ELSE @ + 1]
Clear(st) == [st EXCEPT !.closed = <<>>, !.stray = 0,
                        !.open = [m \in DOMAIN @ |-> [@[m] EXCEPT !.bytes = {}, !.sizes = <<>>, !.off = 0]]]

\* ---- the report
Pages(m) == {x \div PAGE : x \in m.bytes}
Sum(f) == FoldSet(LAMBDA x, a : a + f[x], 0, DOMAIN f)
Total(st) == FoldSeq(LAMBDA m, a : a + Cardinality(Pages(m)), 0, st.closed)
Told(m) == Cardinality(m.bytes) > HEAD /\ m.size # 0
Order(s) == LET P == [i \in DOMAIN s |-> Cardinality(Pages(s[i]))]
                Before(i, j) == P[i] > P[j] \/ (P[i] = P[j] /\ i < j)
                Rank(i) == Cardinality({j \in DOMAIN s : Before(j, i)}) + 1
            IN [k \in DOMAIN s |-> s[CHOOSE i \in DOMAIN s : Rank(i) = k]]
\* the size of structures, unless reads were of several (or beside them)
Usual(m) == Min({x \in DOMAIN m.sizes : \A y \in DOMAIN m.sizes : m.sizes[y] <= m.sizes[x]})
Mixed(m) == \/ Sum(m.sizes) <= 1
            \/ m.off > Sum(m.sizes) \div 100
            \/ 101 * m.sizes[Usual(m)] < 100 * Sum(m.sizes)
Structs(m, z) == {p \in {HEAD + z * k : k \in 0..((m.size - HEAD) \div z)} : p + z <= m.size /\ \E b \in 0..(z - 1) : (p + b) \in m.bytes}
Redundant(m) ==
    LET z == Usual(m)
        all == Structs(m, z)
        num == Cardinality(all)
        N == [b \in 0..(z - 1) |-> Cardinality({p \in all : (p + b) \notin m.bytes})]
    IN SetToSortSeq({<<b, N[b], num>> : b \in {b \in 0..(z - 1) : 4 * N[b] >= num}}, LAMBDA x, y : x[1] < y[1])
Entry(st, m) == [name |-> m.name, bytes |-> Cardinality(m.bytes), size |-> m.size, pages |-> Cardinality(Pages(m)),
                 mixed |-> Mixed(m), redundant |-> IF Mixed(m) THEN <<>> ELSE Redundant(m)]
Report(st) ==
    LET told == SelectSeq(Order(st.closed), Told) IN
    [pages |-> Total(st), entries |-> [i \in DOMAIN told |-> Entry(st, told[i])],
     left |-> [i \in 1..Cardinality(DOMAIN st.open) |-> st.open[SetToSortSeq(DOMAIN st.open, LAMBDA x, y : x < y)[i]].name],
     stray |-> st.stray, lost |-> st.lost]
\* a field (its first bit and bits in a structure that begins at `at`) is read as the smallest integer that
\* holds it and the bits before it in its first byte, or, beyond 64 bits, as eight bytes and one more
Span(bits) == IF bits <= 8 THEN 1 ELSE IF bits <= 16 THEN 2 ELSE IF bits <= 32 THEN 4 ELSE 8
Touched(first, bits) == IF (first % 8) + bits <= 64 THEN Span((first % 8) + bits) ELSE 9
Field(st, at, first, bits, size) == Read(st, at + first \div 8, Touched(first, bits), first \div 8, size)
Apply(st, o) == CASE o.op = "register" -> Register(st, o.name, o.at, o.size)
                  [] o.op = "deregister" -> Deregister(st, o.at)
                  [] o.op = "read" -> Read(st, o.at, o.n, o.pos, o.size)
                  [] o.op = "field" -> Field(st, o.at, o.first, o.bits, o.size)
                  [] o.op = "clear" -> Clear(st)
===============================================================================
