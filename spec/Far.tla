--------------------------------- MODULE Far ---------------------------------
(* Resources of any size, as what they are mostly: zeros, with a few parts written somewhere.  Numbers of *)
(* bytes and elements are digit sequences (see Digits).  A resource is [len |-> its size, parts |->       *)
(* sequence of [at |-> where, b |-> bytes]], the parts apart from each other.                             *)
EXTENDS Format, Digits
Holds(part, p) == AtMost(part.at, p) /\ Less(p, Plus(part.at, Len(part.b)))
ByteOfFile(res, p) ==
    LET hit == {k \in DOMAIN res.parts : Holds(res.parts[k], p)} IN
    IF hit = {} THEN 0 ELSE LET x == res.parts[CHOOSE k \in hit : TRUE] IN x.b[Val(Minus(p, x.at)) + 1]
\* n bytes from a position on
Window(res, p, n) == [k \in 1..n |-> ByteOfFile(res, Plus(p, k - 1))]
Inside(res, p, n) == AtMost(Plus(p, n), res.len)

\* ---- vectors
Number(res, n, size) == AtMost(Times(n, size), res.len) /\ Less(res.len, Plus(Times(n, size), size))
ElementBytes(res, S, i) == Window(res, Times(i, Size(S)), Size(S))
Element(res, S, i) == DecodeAt(S, ElementBytes(res, S, i), 0)
Run(res, S, i, n) == [k \in 1..n |-> Element(res, S, Plus(i, k - 1))]
RangeField(S) == CHOOSE k \in DOMAIN Fields(S) : Fields(S)[k].range
Span(res, S, i) == <<Element(res, S, i)[RangeField(S)], Element(res, S, Plus(i, 1))[RangeField(S)]>>
\* ---- multivectors: r describes the resource (Format), ix is its index
Widen(b, n) == b \o [k \in 1..(n - Len(b)) |-> 0]
Begin(r, ix, i, n) == LET z == IndexSize(r) IN Widen(Window(ix, Times(i, z), z), n)
Item(r, ix, data, i) ==
    LET n == Len(ix.len)
        from == Begin(r, ix, i, n)
        to == Begin(r, ix, Plus(i, 1), n)
        b == TLCEval(Window(data, from, Val(Minus(to, from))))
    IN Elems(r, b, 0, Len(b))
=============================================================================
