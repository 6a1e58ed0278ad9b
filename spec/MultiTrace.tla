----------------------------- MODULE MultiTrace -----------------------------
(* Judges recorded multivector histories: {op:"init", k}, operations, and what was stored and is shown. *)
EXTENDS Multi
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, k, st
vars == <<l, k, st>>
If(c, n) == IF c THEN {n} ELSE {}
BadView(items, g) ==
    LET e == SeenItems(items, FALSE) T == Kinds[k].types IN
    If(g.n # Len(items), "size") \cup If(~g.ok, "null") \cup If(g.items # e, "items")
    \cup If(\E j \in DOMAIN T : g.iter[T[j]] # [i \in DOMAIN e |-> OfType(e[i], T[j])], "iterators")
    \cup If(g.only # [i \in DOMAIN e |-> OfType(e[i], T[1])], "partial_visitor")
    \cup If(\E j \in DOMAIN T : g.some[T[j]] # [i \in DOMAIN e |-> LET x == OfType(e[i], T[j]) IN <<x, x, x>>], "typed_visiting")
BadPy(items, g) ==
    LET e == SeenItems(items, TRUE) n == Len(e) IN
    If(g.n # n, "py_length") \cup If(g.at # e, "py_items") \cup If(g.neg # e, "py_negative") \cup If(g.iter # e, "py_iteration") \cup If(g.sliced # e, "py_slice")
    \cup If(g.even # [i \in 1..((n + 1) \div 2) |-> e[2 * i - 1]] \/ g.back # Reverse(e), "py_steps")
\* Rust's view has no null state
BadRust(items, g) == If(g.n # Len(items), "size") \cup If(g.items # SeenItems(items, FALSE), "items")
Whole(f) == f.bytes >= 16 /\ f.head = LE8(f.bytes - 16)
Bad(r, s1) ==
    CASE r.op = "madd" /\ "fresh" \in DOMAIN r -> LET S == Kinds[k].types[r.alt]  it == s1.items[Len(s1.items)] IN
             If(r.fresh # OptView(S, DecodeAt(S, Zero(S), 0)), "new_element") \cup If(r.get # OptView(S, DecodeAt(S, it[Len(it)][2], 0)), "set_element")
      [] r.op = "mclose" ->
             If(r.data # Frame(StoredData(k, s1.items)), "stored_data") \cup If(r.index # Frame(StoredIndex(k, s1.items)), "stored_index")
             \cup BadView(s1.items, r.view) \cup (IF r.read = <<>> THEN {"not_readable"} ELSE BadView(s1.items, r.read[1])) \cup BadPy(s1.items, r.py)
      [] r.op = "rclose" ->
             If(r.data # Frame(StoredData(k, s1.items)), "stored_data") \cup If(r.index # Frame(StoredIndex(k, s1.items)), "stored_index") \cup BadRust(s1.items, r.view)
      [] r.op \in {"big", "rbig"} ->
             LET short == r.count < Period
                 o == IF short THEN SubSeq(PatOffsets[k], 1, r.count + 1) ELSE PatOffsets[k]
                 each == o[Len(o)]
                 total == IF short THEN each ELSE (r.count \div Period) * each + o[(r.count % Period) + 1]
             IN If(~r.open, "null") \cup If(r.n # r.count, "size") \cup If(r.bytes # total + 16, "data_size") \cup If(r.head # LE8(total), "recorded_size")
                \cup If(r.tail # ZeroBytes(8) \/ r.itail # ZeroBytes(8), "padding") \cup If(r.ibytes # (r.count + 1) * IndexBytes(k) + 16, "index_size")
                \cup If(r.ihead # LE8((r.count + 1) * IndexBytes(k)), "index_recorded_size") \cup If(r.first # SubSeq(PatData[k], 1, each), "first_items")
                \cup If(r.offsets # o, "first_offsets") \cup If(r.last # total, "last_offset") \cup If(~r.repeats, "later_items")
                \cup (IF r.op = "big" THEN If(~r.visited, "visiting")
                      ELSE If(r.some # [j \in DOMAIN r.at |-> SeenItem(PatItem(k, r.at[j] % Period), FALSE)], "visiting"))
      \* a multivector whose index cannot hold its data's size is refused, and nothing can be read
      [] r.op = "full" ->
             IF Fits(k, PatTotal(k, r.count))
             THEN If(~r.open, "null") \cup If(r.n # r.count, "size") \cup If(~r.visited, "visiting") \cup If(~r.read, "not_readable")
             ELSE If(r.open, "accepted_beyond_index") \cup If(r.read, "readable_beyond_index")
      [] r.op = "rfull" ->
             IF Fits(k, PatTotal(k, r.count))
             THEN If(r.grown # r.count \/ ~r.open, "refused") \cup If(r.open /\ r.n # r.count, "size") \cup If(~Whole(r.data) \/ ~Whole(r.index), "not_readable")
             ELSE If(r.open, "accepted_beyond_index") \cup If(Whole(r.data) /\ Whole(r.index), "readable_beyond_index")
                  \cup If(r.grown < r.count /\ Fits(k, PatTotal(k, r.grown)), "refused_early")
      [] OTHER -> {}
TraceInit == l = 1 /\ k = "" /\ st = MState0
Step(r) == IF r.op = "init" THEN k' = r.k /\ st' = MState0
           ELSE /\ k' = k
                /\ st' = MApply(k, st, r)
                /\ LET b == Bad(r, st') IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b]))
TraceNext == /\ l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
