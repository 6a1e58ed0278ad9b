-------------------------------- MODULE Limits --------------------------------
(* Size limits that explicit references put on the resources they point at.                             *)
(* Model.refs: sequence of [s, f, arch, res]: field f (1-based) of structure s points at arch.res.      *)
(* Sizes are <<high, low>> in base 2^16, so that every limit up to 2^46 can be named.                   *)
EXTENDS Format
Refs == Model.refs
Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
Small16(n) == <<n \div 65536, n % 65536>>
Pow(w) == IF w < 16 THEN <<0, 2 ^ w>> ELSE <<2 ^ (w - 16), 0>>
\* the widths of the fields that point at a resource; a 64-bit field reaches everything
WidthsOf(arch, res) == {Fields(Refs[i].s)[Refs[i].f].w : i \in {j \in DOMAIN Refs : Refs[j].arch = arch /\ Refs[j].res = res}} \ {64}
Limit == [a \in DOMAIN Archives |-> [i \in DOMAIN Archives[a] |->
             LET r == Archives[a][i] ws == WidthsOf(a, r.name) IN
             IF r.kind \notin {"vec", "multi", "raw"} \/ ws = {} THEN <<>> ELSE Pow(CHOOSE w \in ws : \A v \in ws : w <= v)]]
Fits(a, i, n) == Limit[a][i] = <<>> \/ Le(n, Limit[a][i])

\* content: function from resource names to [n |-> size] for data, [sub |-> content] for archives; absent names are absent
RECURSIVE Opens(_, _)
Opens(a, ct) == \A i \in DOMAIN Archives[a] :
    LET r == Archives[a][i] IN
    IF r.name \notin DOMAIN ct THEN r.opt
    ELSE IF r.kind = "arch" THEN r.opt \/ Opens(r.arch, ct[r.name].sub)
    ELSE Fits(a, i, ct[r.name].n)
\* Rust: every resource that is there, optional or not, has to fit
RECURSIVE RsOpens(_, _)
RsOpens(a, ct) == \A i \in DOMAIN Archives[a] :
    LET r == Archives[a][i] IN
    IF r.name \notin DOMAIN ct THEN r.opt
    ELSE IF r.kind = "arch" THEN RsOpens(r.arch, ct[r.name].sub)
    ELSE Fits(a, i, ct[r.name].n)
\* what an opened archive shows
RECURSIVE Shows(_, _)
Shows(a, ct) ==
    [nm \in {Archives[a][i].name : i \in {j \in DOMAIN Archives[a] :
                 Archives[a][j].name \in DOMAIN ct /\ (Archives[a][j].kind = "arch" => Opens(Archives[a][j].arch, ct[Archives[a][j].name].sub))}} |->
        LET i == CHOOSE j \in DOMAIN Archives[a] : Archives[a][j].name = nm r == Archives[a][i] IN
        IF r.kind = "arch" THEN [sub |-> Shows(r.arch, ct[nm].sub)] ELSE [n |-> ct[nm].n]]
=============================================================================
