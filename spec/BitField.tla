------------------------------ MODULE BitField ------------------------------
(* How a field is accessed: a batched access to a machine word plus, when the field straddles more    *)
(* than one word, one extra byte.  This is the algorithm of the C++, Rust and (with a wider word)      *)
(* Python accessors, parameterised by the byte and word size so that TLC can check it for every       *)
(* memory content.  Refinement: every step keeps foreign bits, and the whole write stores the value.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS ByteBits,      \* bits per byte (8 in reality)
          WordBytes,     \* bytes of the widest batch (8 in reality)
          MemBytes
VARIABLES mem,           \* function 0..N-1 -> {0,1}
          pc, off, w, val, before

vars == <<mem, pc, off, w, val, before>>
N == ByteBits * MemBytes
MaxW == ByteBits * WordBytes
Min(a, b) == IF a < b THEN a ELSE b

BatchBytes(o, n) == Min(WordBytes, (n + (o % ByteBits) + ByteBits - 1) \div ByteBits)
BatchBits(o, n) == BatchBytes(o, n) * ByteBits - (o % ByteBits)    \* field bits covered by the batch

\* ---- reading, as coded
Base(o) == (o \div ByteBits) * ByteBits
CodeRead(m, o, n) ==
    LET batch == [k \in 0..(BatchBits(o, n) - 1) |-> m[Base(o) + (o % ByteBits) + k]]
        extra == [k \in 0..(ByteBits - 1) |-> m[Base(o) + BatchBytes(o, n) * ByteBits + k]]
        raw == [k \in 0..(n - 1) |-> IF k < BatchBits(o, n) THEN batch[k] ELSE extra[k - BatchBits(o, n)]]
    IN raw                                                        \* the mask keeps bits 0..n-1

SpecRead(m, o, n) == [k \in 0..(n - 1) |-> m[o + k]]

Init == /\ mem \in [0..(N - 1) -> {0, 1}] /\ pc = "idle"
        /\ off = 0 /\ w = 1 /\ val = [k \in {0} |-> 0] /\ before = mem

Start == /\ pc = "idle" /\ pc' = "batch"
         /\ \E o \in 0..(N - 1), n \in 1..MaxW :
               /\ o + n <= N
               /\ \E v \in [0..(n - 1) -> {0, 1}] : off' = o /\ w' = n /\ val' = v
         /\ before' = mem /\ UNCHANGED mem

Batch == /\ pc = "batch"
         /\ mem' = [i \in 0..(N - 1) |-> IF i >= off /\ i < off + Min(w, BatchBits(off, w)) THEN val[i - off] ELSE mem[i]]
         /\ pc' = IF BatchBits(off, w) < w THEN "extra" ELSE "done"
         /\ UNCHANGED <<off, w, val, before>>

Extra == /\ pc = "extra" /\ pc' = "done"
         /\ mem' = [i \in 0..(N - 1) |-> IF i >= off + BatchBits(off, w) /\ i < off + w THEN val[i - off] ELSE mem[i]]
         /\ UNCHANGED <<off, w, val, before>>

Next == Start \/ Batch \/ Extra
Spec == Init /\ [][Next]_vars

\* ---- properties
ReadIsSpec == pc = "batch" => CodeRead(mem, off, w) = SpecRead(mem, off, w)
StoresValue == pc = "done" => SpecRead(mem, off, w) = val
NeighboursKept == pc # "idle" => \A i \in 0..(N - 1) : (i < off \/ i >= off + w) => mem[i] = before[i]
ExtraIsOneByte == pc = "extra" => w - BatchBits(off, w) < ByteBits
=============================================================================
