----------------------------- MODULE ViewsTrace -----------------------------
(* Judges recorded histories on real array views: {op:"init", s} then operations of Views, wload with   *)
(* the bytes b it was given; views report got, iterators their effects.                                 *)
EXTENDS Format
V == INSTANCE Views
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, mem, s
vars == <<l, st, mem, s>>
If(c, n) == IF c THEN {n} ELSE {}
El(m, b, k) == OptView(s, DecodeAt(s, m[b], (k - 1) * Size(s)))     \* element k of buffer b
Shown(m, v) == [k \in 1..v.n |-> El(m, v.buf, v.at + k)]
BadView(m, v, g) ==
    LET e == Shown(m, v) IN
    If(g.n # v.n, "size") \cup If(g.nb # (v.n + (IF v.sent THEN 1 ELSE 0)) * Size(s), "size_in_bytes")
    \cup If(g.empty # (v.n = 0), "empty") \cup If(g.ok # v.ok, "null") \cup If(g.el # e, "index") \cup If(g.it # e, "iteration")
    \cup If(g.post # e, "post_increment") \cup If(g.rev # Reverse(e), "reverse") \cup If(g.span # LE8(v.n), "distance")
    \cup If(g.ends # (IF v.n = 0 THEN <<>> ELSE <<e[1], e[v.n]>>), "front_back")
    \cup If(Structs[s].range /\ LET F == Fields(s) k == CHOOSE j \in DOMAIN F : F[j].range
                                    at(i) == FieldAt(s, m[v.buf], (v.at + i - 1) * Size(s), k)
                                IN g.rg # [i \in 1..v.n |-> <<at(i), at(i + 1)>>], "range")
LE8i(n) == IF n >= 0 THEN LE8(n) ELSE LET c == LE8(-n - 1) IN [k \in 1..8 |-> 255 - c[k]]
Bad(r, n, m) ==
    CASE r.op[1] = "w" -> BadView(m, n.ws[r.id], r.got)
      [] r.op[1] = "c" -> LET a == st.its[r.id].pos b == st.its[r.src].pos IN
             If(r.diff # LE8i(a - b), "difference")
             \cup If(r.cmp # <<a = b, a # b, a < b, a <= b, a > b, a >= b>>, "compare")
      [] r.op[1] = "d" -> LET x == st.its[r.id] e == El(m, x.buf, x.pos + r.a + 1) IN If(r.el # <<e, e, e>>, "dereference")
      [] r.op[1] = "m" -> If(~r.self, "returns_itself")
      [] r.op[1] = "eq" -> LET e == DecodeAt(s, r.x, 0) = DecodeAt(s, r.y, 0) IN
             If(r.eq # e, "equal") \cup If(r.ne # ~e, "not_equal") \cup If(e /\ ~r.hash, "hash")
      [] OTHER -> {}
TraceInit == l = 1 /\ st = V!VState0 /\ mem = <<>> /\ s = ""
Full(r) == [r EXCEPT !.op = r.op[2]]
Step(r) ==
    IF r.op = <<"init", "init">> THEN st' = V!VState0 /\ mem' = <<>> /\ s' = r.s
    ELSE /\ s' = s
         /\ mem' = IF r.op[2] = "wload" THEN V!Put(mem, r.id, r.b) ELSE mem
         /\ st' = V!VApply(st, Full(r), Structs[s].range)
         /\ LET b == Bad(r, st', mem') IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b]))
TraceNext == /\ l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
