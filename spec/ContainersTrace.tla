--------------------------- MODULE ContainersTrace ---------------------------
(* Judges recorded histories on real containers: {op:"init", s}, then operations of Containers with     *)
(* got: what the container shows afterwards.  "big" is a growing vector of many elements.               *)
(* Rust vectors have kind "rv", Rust's growing vector of many elements is "rbig".                       *)
EXTENDS Containers
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, S, st
vars == <<l, S, st>>
If(c, n) == IF c THEN {n} ELSE {}
BadView(v, g) ==
    LET e == Exposed(S, v) n == Len(e) IN
    If(g.n # n, "view_size") \cup If(g.nb # Len(v) * Size(S), "view_bytes") \cup If(g.el # e \/ g.it # e, "view_elements")
    \cup If(g.rev # Reverse(e), "view_reverse") \cup If(g.empty # (n = 0), "view_empty") \cup If(Len(v) > 0 /\ ~g.ok, "view_null")
BadVector(v, g) ==
    LET e == Seen(S, v) n == Len(v) IN
    If(g.n # n, "size") \cup If(g.nb # n * Size(S), "size_in_bytes") \cup If(g.b # FlattenSeq(v), "bytes")
    \cup If(g.el # e \/ g.elm # e, "elements") \cup If(g.ends # (IF n = 0 THEN <<>> ELSE <<e[1], e[1], e[n], e[n]>>), "front_back")
    \cup BadView(v, g.view)
BadSingle(e, g) == If(g.b # e, "bytes") \cup If(g.get # Seen(S, <<e>>)[1] \/ g.getm # g.get, "fields")
\* Rust: the elements, the view of them (without the closing element of a vector of ranges), its bytes
Spans(v) == LET k == CHOOSE j \in DOMAIN Fields(S) : Fields(S)[j].range
            IN [i \in 1..(Len(v) - 1) |-> <<FieldAt(S, v[i], 0, k), FieldAt(S, v[i + 1], 0, k)>>]
BadRust(v, g) ==
    If(g.n # Len(v), "size") \cup If(g.el # Seen(S, v), "elements") \cup If(g.vn # Len(Exposed(S, v)), "view_size") \cup If(g.view # Exposed(S, v), "view_elements")
    \cup If(g.rg # (IF Structs[S].range /\ v # <<>> THEN Spans(v) ELSE <<>>), "ranges")
    \cup If(g.b # (IF Structs[S].range /\ v = <<>> THEN Zero(S) ELSE FlattenSeq(v)), "bytes") \cup If(~g.dbg, "printed")
\* a growing vector of ranges stores the end of all ranges even if it holds nothing else
RBig(r) == IF Structs[S].range /\ r.count = 0 THEN 1 ELSE r.count
BadRustBig(r) ==
    If(~r.ok, "not_closed") \cup If(r.size # r.count, "size") \cup If(r.vn # (IF Structs[S].range THEN RBig(r) - 1 ELSE r.count), "view_size")
    \cup If(r.bytes # RBig(r) * Size(S) + 16, "stored_size") \cup If(r.head # LE8(RBig(r) * Size(S)), "recorded_size") \cup If(r.tail # ZeroBytes(8), "padding")
    \cup If(r.first # FlattenSeq([i \in 1..(IF RBig(r) < r.period THEN RBig(r) ELSE r.period) |-> IF r.count = 0 THEN Zero(S) ELSE PatElement(S, i - 1)]), "first_elements")
    \cup If(~r.repeats, "later_elements") \cup If(r.some # [j \in DOMAIN r.at |-> Seen(S, <<PatElement(S, r.at[j] % r.period)>>)[1]], "view_elements")
Bad(r, s0, s1) ==
    CASE r.op = "seq" -> LET e == s1.ss[r.id] = s1.ss[r.src] IN If(r.eq # e, "equal") \cup If(r.ne # ~e, "not_equal") \cup If(e /\ ~r.hash, "hash")
      [] r.kind = "rv" -> BadRust(s1.vs[r.id], r.got)
      [] r.op = "rbig" -> BadRustBig(r)
      [] r.kind = "v" -> BadVector(s1.vs[r.id], r.got)
      [] r.kind = "s" -> BadSingle(s1.ss[r.id], r.got)
      [] r.op = "xclose" -> LET v == s1.xs[r.id].items IN
             If(r.b # Frame(FlattenSeq(v)), "stored") \cup BadView(v, r.view) \cup (IF r.read = <<>> THEN {"not_readable"} ELSE BadView(v, r.read[1]))
      [] r.kind = "x" -> LET n == Len(s1.xs[r.id].items) IN If(r.n # n, "size") \cup If(r.empty # (n = 0), "empty")
      [] r.op = "big" -> If(~r.ok, "not_closed") \cup If(r.size # r.count, "size") \cup If(r.empty # (r.count = 0), "empty")
             \cup If(r.vn # (IF Structs[S].range /\ r.count > 0 THEN r.count - 1 ELSE r.count), "view_size") \cup If(r.vnb # r.count * Size(S), "view_bytes")
             \cup If(r.bytes # r.count * Size(S) + 16, "stored_size") \cup If(r.head # LE8(r.count * Size(S)), "recorded_size") \cup If(r.tail # ZeroBytes(8), "padding")
             \cup If(r.first # FlattenSeq([i \in 1..(IF r.count < r.period THEN r.count ELSE r.period) |-> PatElement(S, i - 1)]), "first_elements")
             \cup If(~r.repeats, "later_elements") \cup If(~r.same, "view_elements")
      [] OTHER -> {}
TraceInit == l = 1 /\ S = "" /\ st = CState0
Step(r) == IF r.op = "init" THEN S' = r.s /\ st' = CState0
           ELSE /\ S' = S
                /\ st' = CApply(S, st, r)
                /\ LET b == Bad(r, st, st') IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b]))
TraceNext == /\ l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
