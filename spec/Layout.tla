------------------------------- MODULE Layout -------------------------------
(* Struct layout derived from declarations.  A declaration is a sequence of fields                      *)
(*   [name, type, width]   width 0 = not given; type is a basic type or an enumeration                  *)
(* The state machine declares a struct field by field; the invariants are what every user of a layout   *)
(* relies on: fields are consecutive, disjoint and cover the struct, and values stored in them read     *)
(* back whatever else is stored around them.                                                            *)
EXTENDS Bits, FiniteSets, TLC

BaseW == [bool |-> 1, u8 |-> 8, i8 |-> 8, u16 |-> 16, i16 |-> 16, u32 |-> 32, i32 |-> 32, u64 |-> 64, i64 |-> 64]
Signed(t) == t \in {"i8", "i16", "i32", "i64"}
\* enums: name -> [type, width]
BaseOf(enums, t) == IF t \in DOMAIN enums THEN enums[t].type ELSE t
DefaultW(enums, t) == IF t \in DOMAIN enums THEN (IF enums[t].width = 0 THEN BaseW[enums[t].type] ELSE enums[t].width) ELSE BaseW[t]
WidthOf(enums, f) == IF f.width = 0 THEN DefaultW(enums, f.type) ELSE f.width
RECURSIVE OffsetIn(_, _, _)
OffsetIn(enums, fs, k) == IF k = 1 THEN 0 ELSE OffsetIn(enums, fs, k - 1) + WidthOf(enums, fs[k - 1])
FieldLayout(enums, fs, k) == << fs[k].name, OffsetIn(enums, fs, k), WidthOf(enums, fs[k]), Signed(BaseOf(enums, fs[k].type)) >>
LayoutOf(enums, fs) == [k \in DOMAIN fs |-> FieldLayout(enums, fs, k)]
BitsIn(enums, fs) == IF fs = <<>> THEN 0 ELSE OffsetIn(enums, fs, Len(fs)) + WidthOf(enums, fs[Len(fs)])
BytesIn(enums, fs) == (BitsIn(enums, fs) + 7) \div 8

\* smallest and largest number of a field, as 8 bytes
MinOf(w, s) == Bytes8([k \in 1..64 |-> IF s /\ w > 1 /\ k >= w THEN 1 ELSE 0])
MaxOf(w, s) == Bytes8([k \in 1..64 |-> IF k < (IF s /\ w > 1 THEN w ELSE w + 1) THEN 1 ELSE 0])

\* ---- the state machine
CONSTANTS DeclTypes, DeclWidths, MaxFields, DeclEnums
VARIABLES fields, mem
Samples(w, s) == {MinOf(w, s), MaxOf(w, s), Bytes8([k \in 1..64 |-> IF k <= w /\ k % 2 = 1 /\ ~(s /\ k = w) THEN 1 ELSE 0])}
L(k) == FieldLayout(DeclEnums, fields, k)
Declare == /\ Len(fields) < MaxFields
           /\ \E t \in DeclTypes, w \in DeclWidths :
                /\ w <= DefaultW(DeclEnums, t)
                /\ (t \in DOMAIN DeclEnums => w \in {0, DefaultW(DeclEnums, t)})
                /\ fields' = Append(fields, [name |-> "f", type |-> t, width |-> w])
           /\ mem' = [i \in 1..BytesIn(DeclEnums, fields') |-> 0]
Assign == \E k \in DOMAIN fields : \E v \in Samples(L(k)[3], L(k)[4]) :
             mem' = Store(mem, L(k)[2], L(k)[3], v) /\ UNCHANGED fields
LayoutInit == fields = <<>> /\ mem = <<>>
LayoutNext == Declare \/ Assign
LayoutSpec == LayoutInit /\ [][LayoutNext]_<<fields, mem>>

Consecutive == \A k \in DOMAIN fields : L(k)[2] = (IF k = 1 THEN 0 ELSE L(k - 1)[2] + L(k - 1)[3])
Tight == /\ BitsIn(DeclEnums, fields) <= 8 * BytesIn(DeclEnums, fields)
         /\ 8 * BytesIn(DeclEnums, fields) < BitsIn(DeclEnums, fields) + 8
Disjoint == \A i, k \in DOMAIN fields : i < k => L(i)[2] + L(i)[3] <= L(k)[2]
Get(m, k) == Bytes8(Extend(FieldBits(m, L(k)[2], L(k)[3]), L(k)[4]))
Independent == \A k \in DOMAIN fields : \A v \in Samples(L(k)[3], L(k)[4]) :
                 LET m2 == Store(mem, L(k)[2], L(k)[3], v) IN
                 /\ Get(m2, k) = v
                 /\ \A i \in DOMAIN fields \ {k} : Get(m2, i) = Get(mem, i)
PaddingZero == \A i \in BitsIn(DeclEnums, fields)..(8 * BytesIn(DeclEnums, fields) - 1) : Bit(mem, i) = 0
=============================================================================
