----------------------------- MODULE Containers -----------------------------
(* C++ and Rust containers of elements of one structure S as sequences of byte strings.                 *)
(*   st.vs  vector register -> Seq(element)        st.ss  single struct register -> element             *)
(*   st.xs  growing vector register -> [items, open]                                                    *)
(* Assignments are sequences of <<field (1-based), value>>; <<>> as value is "no value".                *)
EXTENDS Format

Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
CState0 == [vs |-> <<>>, ss |-> <<>>, xs |-> <<>>]
Zero(S) == ZeroBytes(Size(S))
RECURSIVE Assign(_, _, _)
Assign(S, e, sets) ==
    IF sets = <<>> THEN e
    ELSE LET k == Head(sets)[1] f == Fields(S)[k]
         IN Assign(S, Store(e, OffsetsOf[S][k], f.w, Raw(f, Head(sets)[2])), Tail(sets))
Resized(S, v, n) == [i \in 1..n |-> IF i <= Len(v) THEN v[i] ELSE Zero(S)]

CApply(S, st, op) ==
    LET v == st.vs[op.id]
        src == st.vs[op.src]
        V(x) == [st EXCEPT !.vs = Put(@, op.id, x)]
        Sg(x) == [st EXCEPT !.ss = Put(@, op.id, x)]
        x == st.xs[op.id]
    IN CASE op.op = "vnew" -> V([i \in 1..op.n |-> Zero(S)])
         [] op.op \in {"vdefault", "vclear"} -> V(<<>>)
         [] op.op \in {"vcopy", "vassign"} -> V(src)
         [] op.op = "vmove" -> [st EXCEPT !.vs = Put(Drop(@, op.src), op.id, src)]
         [] op.op = "vgrow" -> V(Append(v, Assign(S, Zero(S), op.sets)))
         [] op.op = "vset" -> V([v EXCEPT ![op.i + 1] = Assign(S, @, op.sets)])
         [] op.op = "vback" -> V([v EXCEPT ![Len(v)] = Assign(S, @, op.sets)])
         [] op.op = "vfront" -> V([v EXCEPT ![1] = Assign(S, @, op.sets)])
         [] op.op = "vresize" -> V(Resized(S, v, op.n))
         [] op.op = "vreserve" -> st
         [] op.op = "vpop" -> V(SubSeq(v, 1, Len(v) - 1))
         [] op.op = "vcpel" -> V([v EXCEPT ![op.i + 1] = src[op.j + 1]])
         [] op.op = "vfroms" -> V([v EXCEPT ![op.i + 1] = st.ss[op.src]])
         [] op.op = "snew" -> Sg(Zero(S))
         [] op.op = "sset" -> Sg(Assign(S, st.ss[op.id], op.sets))
         [] op.op = "scopy" -> Sg(st.ss[op.src])
         [] op.op = "sfromv" -> Sg(src[op.i + 1])
         [] op.op = "xnew" -> [st EXCEPT !.xs = Put(@, op.id, [items |-> <<>>, open |-> TRUE])]
         [] op.op = "xgrow" -> [st EXCEPT !.xs[op.id].items = Append(@, Assign(S, Zero(S), op.sets))]
         [] op.op = "xclose" -> [st EXCEPT !.xs[op.id].open = FALSE]
         [] OTHER -> st

CLegal(S, st, op) ==
    LET v == st.vs[op.id] src == st.vs[op.src] IN
    CASE op.op \in {"vset", "vfroms"} -> op.i < Len(v)
      [] op.op \in {"vback", "vfront", "vpop"} -> Len(v) > 0
      [] op.op = "vcpel" -> op.i < Len(v) /\ op.j < Len(src)
      [] op.op = "sfromv" -> op.i < Len(src)
      [] op.op \in {"xgrow", "xclose"} -> st.xs[op.id].open
      [] OTHER -> TRUE

\* what readers of a sequence of elements see
Seen(S, v) == [i \in DOMAIN v |-> OptView(S, DecodeAt(S, v[i], 0))]
Exposed(S, v) == IF Structs[S].range /\ Len(v) > 0 THEN SubSeq(Seen(S, v), 1, Len(v) - 1) ELSE Seen(S, v)

\* element i (0-based) of the long sequences: made up from its position, every third stays zero
PatValue(f, i, k) == Canon([f EXCEPT !.opt = <<>>], LE8((i * (2 * (k - 1) + 3)) % (2 ^ (IF f.w > 20 THEN 20 ELSE f.w))))
PatElement(S, i) == IF i % 3 = 2 THEN Zero(S) ELSE Encode(S, [k \in DOMAIN Fields(S) |-> PatValue(Fields(S)[k], i, k)])
=============================================================================
