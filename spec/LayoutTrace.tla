---------------------------- MODULE LayoutTrace ----------------------------
(* Judges what the generated code of a schema does with single elements.  The layout is derived here    *)
(* from the declarations (Model.decl); Format's view of the same schema must coincide with it.          *)
(*   {op:"layout", s, lang, size, fields}     {op:"size", s, size, sizem, name, limits}                 *)
(*   {op:"enc", s, lang, vals, b, got, gotm}  {op:"dec", s, lang, b, got, gotm}                         *)
(*   {op:"setf", s, k, val, b, after, got, gotm, pad}                                                   *)
(*   {op:"eq", s, a, b, eq, ne, hash}         {op:"range", s, bs, n, nb, el, rg}                        *)
(*   {op:"encall", s, rows, b}  the payload a growing vector left     {op:"count", n, want}              *)
(* Rust only: {op:"rsize", s, size, mem, overlap}   {op:"fill", s, a, b, after, got}                      *)
(*   {op:"rsview", s, bs, ok, err, n, el, rg}       {op:"substring", b, at, raw, utf8, lossy, bytes, len}  *)
EXTENDS Format
Ly == INSTANCE Layout WITH DeclTypes <- {}, DeclWidths <- {}, MaxFields <- 0, DeclEnums <- <<>>, fields <- <<>>, mem <- <<>>
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLE l
D(s) == Model.decl.structs[s]
E == Model.decl.enums
LayoutT == [s \in DOMAIN Model.decl.structs |-> Ly!LayoutOf(E, D(s))]
BytesT == [s \in DOMAIN Model.decl.structs |-> Ly!BytesIn(E, D(s))]
ASSUME \A s \in DOMAIN Structs : /\ Size(s) = BytesT[s]
                                 /\ \A k \in DOMAIN Fields(s) : LayoutT[s][k] = << Fields(s)[k].name, OffsetsOf[s][k], Fields(s)[k].w, Fields(s)[k].s >>

View(lang, s, vals) == IF lang \in {"cpp", "rs"} THEN OptView(s, vals) ELSE vals
If(c, n) == IF c THEN {n} ELSE {}
Eq2(s, a, b) == DecodeAt(s, a, 0) = DecodeAt(s, b, 0)

\* ---- UTF-8
Cont(c) == c \in 128..191
Second(c, d) == CASE c = 224 -> d \in 160..191 [] c = 237 -> d \in 128..159 [] c = 240 -> d \in 144..191 [] c = 244 -> d \in 128..143 [] OTHER -> Cont(d)
Need(c) == IF c < 128 THEN 1 ELSE IF c \in 194..223 THEN 2 ELSE IF c \in 224..239 THEN 3 ELSE IF c \in 240..244 THEN 4 ELSE 0
\* how many bytes from i on begin a character
Got(b, i) == LET c == b[i] n == Need(c) IN
             IF n < 2 \/ i = Len(b) \/ ~Second(c, b[i + 1]) THEN 1
             ELSE IF n = 2 \/ i + 1 = Len(b) \/ ~Cont(b[i + 2]) THEN 2
             ELSE IF n = 3 \/ i + 2 = Len(b) \/ ~Cont(b[i + 3]) THEN 3 ELSE 4
RECURSIVE Utf8(_, _)
Utf8(b, i) == i > Len(b) \/ (Need(b[i]) # 0 /\ Got(b, i) = Need(b[i]) /\ Utf8(b, i + Need(b[i])))
RECURSIVE Lossy(_, _)
Lossy(b, i) == IF i > Len(b) THEN <<>>
               ELSE LET g == Got(b, i) IN (IF g = Need(b[i]) THEN SubSeq(b, i, i + g - 1) ELSE <<239, 191, 189>>) \o Lossy(b, i + g)
RECURSIVE Until0(_, _)
Until0(b, i) == IF i > Len(b) \/ b[i] = 0 THEN <<>> ELSE <<b[i]>> \o Until0(b, i + 1)

Copied(s, a, b) == LET RECURSIVE C(_, _)
                       C(k, m) == IF k > Len(Fields(s)) THEN m
                                  ELSE C(k + 1, Store(m, OffsetsOf[s][k], Fields(s)[k].w, Raw(Fields(s)[k], FieldAt(s, a, 0, k))))
                   IN C(1, b)
HasRange(s) == \E j \in DOMAIN Fields(s) : Fields(s)[j].range

Bad(r) ==
    CASE r.op = "layout" -> If(r.size # BytesT[r.s], "size") \cup If(r.fields # LayoutT[r.s], "fields")
      [] r.op = "size" ->
            If(r.size # BytesT[r.s] \/ r.sizem # BytesT[r.s], "size") \cup If(r.name # r.s, "name")
            \cup If(\E k \in DOMAIN r.limits : r.limits[k] # <<>> /\
                      LET y == LayoutT[r.s][k] IN
                      r.limits[k] # << Ly!MinOf(y[3], y[4]), Ly!MaxOf(y[3], y[4]), y[3] >>, "limits")
      [] r.op = "enc" ->
            LET b == Encode(r.s, r.vals) v == View(r.lang, r.s, CanonVals(r.s, r.vals)) IN
            If(r.b # b, "bytes") \cup If(r.got # v, "read_back") \cup If(r.gotm # v, "read_back_mutator")
      [] r.op = "dec" ->
            LET v == View(r.lang, r.s, DecodeAt(r.s, r.b, 0)) IN
            If(r.got # v, "value") \cup If(r.gotm # v, "value_mutator")
      [] r.op = "setf" ->
            LET f == Fields(r.s)[r.k]
                b == Store(r.b, OffsetsOf[r.s][r.k], f.w, Raw(f, r.val))
                v == OptView(r.s, DecodeAt(r.s, b, 0))
            IN If(r.after # b, "bytes") \cup If(r.got # v, "value") \cup If(r.gotm # v, "value_mutator") \cup If(~r.pad, "outside")
      [] r.op = "eq" ->
            LET e == Eq2(r.s, r.a, r.b) IN
            If(r.eq # e, "equal") \cup If(r.ne # ~e, "not_equal") \cup If(e /\ ~r.hash, "hash")
      [] r.op = "range" ->
            LET n == Len(r.bs) \div Size(r.s)
                m == IF n = 0 THEN 0 ELSE n - 1
                k == CHOOSE j \in DOMAIN Fields(r.s) : Fields(r.s)[j].range
                at(i) == FieldAt(r.s, r.bs, i * Size(r.s), k)
            IN If(r.n # m, "exposed") \cup If(r.nb # n * Size(r.s), "bytes")
               \cup If(r.el # [i \in 1..m |-> OptView(r.s, DecodeAt(r.s, r.bs, (i - 1) * Size(r.s)))], "elements")
               \cup If(r.it # r.el, "iterated") \cup If(m > 0 /\ ~r.ok, "null")
               \cup If(r.rg # [i \in 1..m |-> <<at(i - 1), at(i)>>], "range")
      [] r.op = "rsize" -> If(r.size # BytesT[r.s], "size") \cup If(r.mem # BytesT[r.s], "memory") \cup If(r.overlap # HasRange(r.s), "overlap")
      [] r.op = "fill" ->
            LET b == Copied(r.s, r.a, r.b) IN If(r.after # b, "bytes") \cup If(r.got # OptView(r.s, DecodeAt(r.s, b, 0)), "value")
      [] r.op = "rsview" ->
            LET n == Len(r.bs) \div Size(r.s)
                fits == Len(r.bs) % Size(r.s) = 0 /\ (HasRange(r.s) => n > 0)
                m == IF HasRange(r.s) THEN n - 1 ELSE n
                k == CHOOSE j \in DOMAIN Fields(r.s) : Fields(r.s)[j].range
                at(i) == FieldAt(r.s, r.bs, i * Size(r.s), k)
            IN IF ~fits THEN If(r.ok \/ r.err # "size", "accepted")
               ELSE If(~r.ok, "refused") \cup
                    (IF ~r.ok THEN {} ELSE If(r.n # m, "exposed")
                     \cup If(r.el # [i \in 1..m |-> OptView(r.s, DecodeAt(r.s, r.bs, (i - 1) * Size(r.s)))], "elements")
                     \cup If(HasRange(r.s) /\ r.rg # [i \in 1..m |-> <<at(i - 1), at(i)>>], "range"))
      [] r.op = "substring" ->
            IF r.at > Len(r.b) THEN If(~r.panic, "accepted")
            ELSE LET t == Until0(r.b, r.at + 1) IN
                 IF r.panic THEN {"panic"}
                 ELSE If(r.raw # t, "raw") \cup If(r.utf8 # (IF Utf8(t, 1) THEN <<t>> ELSE <<>>), "utf8") \cup If(r.lossy # Lossy(t, 1), "lossy")
                      \cup If(r.bytes # r.b \/ r.len # Len(r.b), "bytes")
      [] r.op = "encall" -> If(r.b # Frame(EncodeAll(r.s, r.rows)), "bytes")
      [] r.op = "count" -> If(r.n # r.want, "count")
      [] OTHER -> {r.op}

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ LET b == Bad(Trace[l]) IN IF b = {} THEN TRUE ELSE PrintT("@@" \o ToJson([i |-> l, bad |-> b]))
             /\ l' = l + 1
             /\ (l = Len(Trace) => PrintT("@@" \o ToJson([done |-> l])))
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
