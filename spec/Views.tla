-------------------------------- MODULE Views --------------------------------
(* C++ array views and their iterators over immutable buffers of elements.                              *)
(*   st.bufs  buffer -> number of whole elements        st.ws  view register                            *)
(*   view     [buf, at, n, sent, ok]: elements at+1..at+n of buf, and one more behind if sent           *)
(*   st.its   iterator register: [buf, pos]                                                             *)
(* Range structures overlap with the next element: the last whole element of a buffer is the sentinel.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Put(f, k, v) == (k :> v) @@ f
VState0 == [bufs |-> <<>>, ws |-> <<>>, its |-> <<>>]
NullView == [buf |-> "", at |-> 0, n |-> 0, sent |-> FALSE, ok |-> FALSE]
OfBuffer(b, n, range) == LET s == range /\ n > 0 IN [buf |-> b, at |-> 0, n |-> IF s THEN n - 1 ELSE n, sent |-> s, ok |-> TRUE]
Slice(v, pos, len) == [v EXCEPT !.at = @ + pos, !.n = len]

\* count: the number of whole elements a loaded buffer holds
VApply(st, op, range) ==
    LET w(v) == [st EXCEPT !.ws = Put(@, op.id, v)]
        i(x) == [st EXCEPT !.its = Put(@, op.id, x)]
        src == st.ws[op.src]
        it == st.its[op.id]
        jt == st.its[op.src]
    IN CASE op.op = "wload" -> [st EXCEPT !.bufs = Put(@, op.id, op.count), !.ws = Put(@, op.id, OfBuffer(op.id, op.count, range))]
         [] op.op = "wnull" -> w(NullView)
         [] op.op = "wcopy" -> w(src)
         [] op.op = "wslice" -> w(Slice(src, op.a, op.b))
         [] op.op = "wrange" -> w(Slice(src, op.a, op.b - op.a))
         [] op.op = "wbefore" -> w(Slice(src, 0, op.a))
         [] op.op = "wafter" -> w(Slice(src, op.a, src.n - op.a))
         [] op.op = "wskip" -> w(Slice(src, op.a, src.n - op.a))
         [] op.op = "wskiplast" -> w(Slice(src, 0, src.n - op.a))
         [] op.op = "ibegin" -> i([buf |-> src.buf, pos |-> src.at])
         [] op.op = "iend" -> i([buf |-> src.buf, pos |-> src.at + src.n])
         [] op.op = "icopy" -> i(jt)
         [] op.op = "iadd" -> i([jt EXCEPT !.pos = @ + op.a])
         [] op.op = "isub" -> i([jt EXCEPT !.pos = @ - op.a])
         [] op.op = "iaddeq" -> i([it EXCEPT !.pos = @ + op.a])
         [] op.op = "isubeq" -> i([it EXCEPT !.pos = @ - op.a])
         [] op.op = "iinc" -> i([it EXCEPT !.pos = @ + 1])
         [] op.op = "idec" -> i([it EXCEPT !.pos = @ - 1])
         [] op.op = "ipinc" -> [st EXCEPT !.its = Put(Put(@, op.id, [it EXCEPT !.pos = @ + 1]), op.src, it)]
         [] op.op = "ipdec" -> [st EXCEPT !.its = Put(Put(@, op.id, [it EXCEPT !.pos = @ - 1]), op.src, it)]
         [] OTHER -> st

\* which operations a caller may perform
Room(st, b) == IF b = "" THEN 0 ELSE st.bufs[b]
Legal(st, op) ==
    LET v == st.ws[op.src] p == st.its[op.id].pos m == Room(st, st.its[op.id].buf)
        q == st.its[op.src].pos o == Room(st, st.its[op.src].buf)
    IN CASE op.op = "wslice" -> op.a + op.b <= v.n
         [] op.op = "wrange" -> op.a <= op.b /\ op.b <= v.n
         [] op.op \in {"wbefore", "wafter", "wskip", "wskiplast"} -> op.a <= v.n
         [] op.op = "iadd" -> q + op.a \in 0..o
         [] op.op = "isub" -> q - op.a \in 0..o
         [] op.op = "iaddeq" -> p + op.a \in 0..m
         [] op.op = "isubeq" -> p - op.a \in 0..m
         [] op.op = "iinc" -> p + 1 <= m
         [] op.op = "idec" -> p >= 1
         [] op.op = "ipinc" -> p + 1 <= m /\ op.src # op.id
         [] op.op = "ipdec" -> p >= 1 /\ op.src # op.id
         [] op.op = "icmp" -> st.its[op.id].buf = st.its[op.src].buf
         [] op.op = "iderefs" -> p + op.a \in 0..(m - 1)
         [] OTHER -> TRUE

\* positions a view shows
Content(v) == [k \in 1..v.n |-> <<v.buf, v.at + k>>]
=============================================================================
