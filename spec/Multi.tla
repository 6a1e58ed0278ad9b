-------------------------------- MODULE Multi --------------------------------
(* Growing a multivector: grow() starts the next item, add() puts an element of one type into it.       *)
(* A kind is [types, iw]; an element is <<type name, bytes>>; st.items holds every item so far.         *)
EXTENDS Containers
Kinds == Model.multis
Elem(k, alt, sets) == LET S == Kinds[k].types[alt] IN <<S, Assign(S, Zero(S), sets)>>
MState0 == [items |-> <<>>, open |-> TRUE]
MApply(k, st, op) ==
    CASE op.op = "mgrow" -> [st EXCEPT !.items = Append(@, <<>>)]
      [] op.op = "madd" -> [st EXCEPT !.items[Len(st.items)] = Append(@, Elem(k, op.alt, op.sets))]
      [] op.op = "mclose" -> [st EXCEPT !.open = FALSE]
      [] OTHER -> st
MLegal(st, op) == st.open /\ (op.op = "madd" => st.items # <<>>)

\* the two stored resources
PosOf(k, S) == CHOOSE i \in DOMAIN Kinds[k].types : Kinds[k].types[i] = S
ElemBytes(k, e) == <<PosOf(k, e[1]) - 1>> \o e[2]
ItemBytes(k, it) == FlattenSeq([i \in DOMAIN it |-> ElemBytes(k, it[i])])
Sums(ns) == FoldLeft(LAMBDA acc, n : Append(acc, acc[Len(acc)] + n), <<0>>, ns)
OffsetList(k, items) == Sums(TLCEval([i \in DOMAIN items |-> Len(ItemBytes(k, items[i]))]))
IndexBytes(k) == (Kinds[k].iw + 7) \div 8
StoredData(k, items) == FlattenSeq([i \in DOMAIN items |-> ItemBytes(k, items[i])])
StoredIndex(k, items) == LET o == OffsetList(k, items) IN FlattenSeq([i \in DOMAIN o |-> SubSeq(LE8(o[i]), 1, IndexBytes(k))])

\* what a reader shows: items as seen, and per type what visiting that type alone shows
SeenItem(it, raw) == [i \in DOMAIN it |-> <<it[i][1], LET v == DecodeAt(it[i][1], it[i][2], 0) IN IF raw THEN v ELSE OptView(it[i][1], v)>>]
SeenItems(items, raw) == [i \in DOMAIN items |-> SeenItem(items[i], raw)]
OfType(it, S) == LET f == SelectSeq(it, LAMBDA e : e[1] = S) IN [i \in DOMAIN f |-> f[i][2]]

\* the items of long histories: i % 4 elements, made up from their position (see drivers/bench.h)
PatItem(k, i) == [j \in 1..(i % 4) |-> LET S == Kinds[k].types[((i + j - 1) % Len(Kinds[k].types)) + 1] IN <<S, TLCEval(PatElement(S, i + j - 1))>>]
Period == 192
PatItems == [k \in ToSet(Model.long) |-> TLCEval([i \in 1..Period |-> TLCEval(PatItem(k, i - 1))])]
PatData == [k \in ToSet(Model.long) |-> StoredData(k, PatItems[k])]
\* whether the index can hold the offset (TLC's numbers have 32 bits)
Fits(k, n) == Kinds[k].iw >= 31 \/ n < 2 ^ Kinds[k].iw
PatOffsets == [k \in ToSet(Model.long) |-> OffsetList(k, PatItems[k])]
PatTotal(k, n) == LET o == PatOffsets[k] IN (n \div Period) * o[Period + 1] + o[(n % Period) + 1]
=============================================================================
