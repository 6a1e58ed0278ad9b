------------------------------ MODULE EnumTrace ------------------------------
(* Judges the numbers of enumeration values and constants in generated code of every language and in the  *)
(* stored schema: a value without a number continues from the one before it, and every pattern of bits a   *)
(* field can hold reads as its number, named or not.                                                       *)
EXTENDS Schema, Json
VARIABLES l
Trace == ndJsonDeserialize("trace.ndjson")

\* number of a pattern of w bits
Read(raw, w, signed) == IF signed /\ raw >= 2 ^ (w - 1) THEN raw - 2 ^ w ELSE raw
Pattern(n, w) == IF n < 0 THEN n + 2 ^ w ELSE n
Name(e, n) ==
    LET vs == Values(e) i == {i \in DOMAIN vs : Small(vs[i].v) = n} IN
    IF i = {} THEN Unknown(n) ELSE vs[CHOOSE j \in i : TRUE].name
All(e) == LET vs == Values(e) IN
    {[name |-> vs[i].name, v |-> Small(vs[i].v)] : i \in DOMAIN vs}
    \cup {[name |-> Unknown(n), v |-> n] : n \in Span(EnumWidth(e), Signed(e.t)) \ {Small(v) : v \in Numbers(vs)}}
\* r.values[lang]: the enumerators; r.reads[lang][raw + 1]: the number read from a field with these bits;
\* r.writes[lang]: the bits after an enumerator was written
EnumBad(r) == LET e == r.e w == EnumWidth(e) s == Signed(e.t) all == TLCEval(All(e)) IN
    {"stored:" \o x : x \in (IF r.stored = [w |-> w, vals |-> [i \in DOMAIN e.vals |-> [name |-> e.vals[i].name, v |-> Small(Values(e)[i].v)]]] THEN {} ELSE {"values"})}
    \cup {"value:" \o g : g \in {g \in DOMAIN r.values : ToSet(r.values[g]) # all}}
    \cup {"read:" \o g : g \in {g \in DOMAIN r.reads : r.reads[g] # [i \in 1..(2 ^ w) |-> Read(i - 1, w, s)]}}
    \cup {"write:" \o g : g \in {g \in DOMAIN r.writes : \E x \in ToSet(r.writes[g]) : x.raw # Pattern(x.v, w)}}
    \cup (IF r.text = [i \in 1..(2 ^ w) |-> e.name \o "::" \o Name(e, Read(i - 1, w, s))] THEN {} ELSE {"to_string"})
ConstBad(r) == {"constant:" \o g : g \in {g \in DOMAIN r.values : r.values[g] # r.v}}
Bad(r) == IF r.k = "enum" THEN EnumBad(r) ELSE ConstBad(r)

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Bad(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b]))
             /\ l' = l + 1
             /\ IF l = Len(Trace) THEN PrintT("@@" \o ToJson([done |-> l])) ELSE TRUE
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
