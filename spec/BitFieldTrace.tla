--------------------------- MODULE BitFieldTrace ---------------------------
(* Judges recorded field accesses of the real implementations against Bits.tla.  Records:             *)
(*  {op:"init", mem}                      a fresh buffer                                               *)
(*  {op:"write", off,w,s, val, mem}       after writing val (8 bytes, two's complement)                *)
(*  {op:"read", off,w,s, got, fits}       value read back (8 bytes) from the current buffer            *)
(* State: the specification's memory, resynchronised to the log after each record so that one         *)
(* violation does not hide the next.                                                                   *)
EXTENDS Bits, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, mem
vars == <<l, mem>>

Exp(r) == CASE r.op = "read" -> Bytes8(Extend(FieldBits(mem, r.off, r.w), r.s))
            [] r.op = "write" -> Store(mem, r.off, r.w, r.val)
            [] OTHER -> r.mem

Bad(r) == CASE r.op = "read" ->
                 (IF r.fits THEN {} ELSE {"value_outside_field_range"})
                 \cup (IF r.got = Exp(r) THEN {} ELSE {"read_value"})
            [] r.op = "write" ->
                 LET e == Exp(r) IN
                 (IF FieldBits(r.mem, r.off, r.w) = FieldBits(e, r.off, r.w) THEN {} ELSE {"stored_value"})
                 \cup (IF Len(r.mem) = Len(mem) /\ \A i \in 0..(8 * Len(mem) - 1) :
                            (i < r.off \/ i >= r.off + r.w) => Bit(r.mem, i) = Bit(mem, i)
                       THEN {} ELSE {"neighbour_changed"})
            [] OTHER -> {}

Report(r) == LET b == Bad(r) IN
    IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b, exp |-> Exp(r)]))

TraceInit == l = 1 /\ mem = <<>>
TraceNext == /\ l <= Len(Trace)
             /\ Report(Trace[l])
             /\ mem' = IF Trace[l].op = "read" THEN mem ELSE Trace[l].mem
             /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
