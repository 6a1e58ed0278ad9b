------------------------------- MODULE Damage -------------------------------
(* Archives on disk, any of whose files may be missing or damaged, and what the readers must make of    *)
(* them.  States: which archive (one of the given contents) and the damage applied so far.              *)
EXTENDS Rust
CONSTANTS MaxDamage, EmitMin
Contents == Model.contents                       \* sequence of [arch, contents]
Base == [i \in DOMAIN Contents |-> ArchiveFiles(Contents[i].arch, "", Contents[i].contents)]
DirsOf(i) == {r.name : r \in {x \in ToSet(Archives[Contents[i].arch]) : x.kind = "arch"}}

DataDamage == {"absent", "empty", "cut1", "cut8", "cut15", "half", "ext1", "ext8", "hdr+1", "hdr-1", "hdr0",
               "hdr32", "hdr64", "hdrall", "wrap8", "wrap15", "grow1", "shrink1", "cut16"}
SchemaDamage == {"absent", "empty", "prefix", "head", "tail", "extended", "crlf", "blank", "lead", "nul", "nulmid", "doubled", "first",
                 "middle", "last", "binary", "case", "swap"}

VARIABLES ci, dmg
vars == <<ci, dmg>>

Take(b, n) == SubSeq(b, 1, n)
SetHdr(b, f) == [i \in DOMAIN b |-> IF i <= 8 THEN f[i] ELSE b[i]]
FF(n) == [i \in 1..n |-> 255]
Mutate(b, m) ==
    LET n == Len(b) p == PayloadOf(b) IN
    CASE m = "empty" -> <<>>
      [] m = "cut1" -> Take(b, n - 1)
      [] m = "cut8" -> Take(b, n - 8)
      [] m = "cut15" -> Take(b, 15)
      [] m = "cut16" -> Take(b, 16)
      [] m = "half" -> Take(b, n \div 2)
      [] m = "ext1" -> b \o <<0>>
      [] m = "ext8" -> b \o ZeroBytes(8)
      [] m = "hdr+1" -> SetHdr(b, LE8(n - 15))
      [] m = "hdr-1" -> SetHdr(b, IF n = 16 THEN FF(8) ELSE LE8(n - 17))
      [] m = "hdr0" -> SetHdr(b, ZeroBytes(8))
      [] m = "hdr32" -> [b EXCEPT ![5] = 1]
      [] m = "hdr64" -> [b EXCEPT ![8] = 128]
      [] m = "hdrall" -> SetHdr(b, FF(8))
      [] m = "wrap8" -> <<248>> \o FF(7)                               \* size + 16 = 8 modulo 2^64
      [] m = "wrap15" -> <<255>> \o FF(7) \o ZeroBytes(7)              \* size + 16 = 15 modulo 2^64
      [] m = "grow1" -> Frame(p \o <<1>>)
      [] m = "shrink1" -> IF p = <<>> THEN b ELSE Frame(Take(p, Len(p) - 1))
      [] OTHER -> b
MutateSchema(sym, m, i) == IF m = "swap" THEN SchemaSym(Contents[i].arch, "other") ELSE m \o "|" \o sym

Damaged(i, d) ==
    LET base == Base[i]
        gone == {p \in DOMAIN base : \/ (p \in DOMAIN d /\ d[p] = "absent")
                                     \/ \E x \in DOMAIN d : d[x] = "rmdir" /\ IsPrefix(x, p)}
    IN [p \in DOMAIN base \ gone |->
          IF p \notin DOMAIN d THEN base[p]
          ELSE IF base[p].k = "data" THEN DataFile(Mutate(base[p].b, d[p]))
          ELSE SchemaFile(MutateSchema(base[p].b, d[p], i))]

Arch(i) == Contents[i].arch
Odd(d) == \E p \in DOMAIN d : d[p] \in {"grow1", "shrink1"}
Verdict ==
    LET f == Damaged(ci, dmg)
        ps == {p \in DOMAIN f : p \in DOMAIN dmg}
        cpp == CppOpen(f, Arch(ci), "")
        err == PyErr(f, Arch(ci), "")
    IN [ci |-> ci, dmg |-> dmg, files |-> [p \in ps |-> f[p]],
        cpp |-> IF Odd(dmg) THEN [judge |-> FALSE] ELSE [judge |-> TRUE, open |-> cpp, res |-> IF cpp THEN CppDump(f, Arch(ci), "") ELSE <<>>],
        rs |-> LET e == RsErr(f, Arch(ci), "") IN
               [judge |-> ~LongInstance(f, Arch(ci)), err |-> e, res |-> IF e = {} THEN RsDump(f, Arch(ci), "") ELSE <<>>,
                short |-> ShortInstance(f, Arch(ci)), erv |-> EmptyRangeVec(f, Arch(ci))],
        py |-> [open |-> err = {}, err |-> err, res |-> IF err = {} THEN PyDump(f, Arch(ci), "") ELSE <<>>]]
Emit == IF Cardinality(DOMAIN dmg) < EmitMin THEN TRUE ELSE PrintT("@@" \o ToJson(Verdict))

Init == ci \in DOMAIN Contents /\ dmg = <<>>
\* the payload of a multivector is only meaningful together with its index: its size is not changed consistently
RECURSIVE MultiData(_, _)
MultiData(arch, pre) == {pre \o r.name : r \in {x \in ToSet(Archives[arch]) : x.kind = "multi"}}
    \cup UNION {MultiData(r.arch, pre \o r.name \o "/") : r \in {x \in ToSet(Archives[arch]) : x.kind = "arch"}}
MultiOf == [i \in DOMAIN Contents |-> MultiData(Contents[i].arch, "")]
Kinds(i, p) == IF Base[i][p].k # "data" THEN SchemaDamage
               ELSE IF p \in MultiOf[i] THEN DataDamage \ {"grow1", "shrink1"} ELSE DataDamage
Next == /\ Cardinality(DOMAIN dmg) < MaxDamage
        /\ \/ \E p \in DOMAIN Base[ci] \ DOMAIN dmg : \E m \in Kinds(ci, p) :
                dmg' = (p :> m) @@ dmg
           \/ \E dname \in DirsOf(ci) : (dname \o "/") \notin DOMAIN dmg /\ dmg' = ((dname \o "/") :> "rmdir") @@ dmg
        /\ UNCHANGED ci
Spec == Init /\ [][Next]_vars
\* random combinations (simulation): one random successor per step
NextRandom ==
    /\ Cardinality(DOMAIN dmg) < MaxDamage
    /\ \E p \in {RandomElement(DOMAIN Base[ci])} : \E m \in {RandomElement(Kinds(ci, p))} : dmg' = (p :> m) @@ dmg
    /\ UNCHANGED ci
SpecRandom == Init /\ [][NextRandom]_vars

\* ---- what the design promises (checked by TLC on every reachable damage)
F == Damaged(ci, dmg)
\* an undamaged archive opens in every language
IntactOpens == dmg = <<>> => CppOpen(F, Arch(ci), "") /\ PyErr(F, Arch(ci), "") = {} /\ RsErr(F, Arch(ci), "") = {}
\* what is presented was stored: C++ shows a resource only if its own files are as they were written
ShowsOnlyIntact == (CppOpen(F, Arch(ci), "") /\ ~Odd(dmg)) =>
    LET d == CppDump(F, Arch(ci), "") full == CppDump(Base[ci], Arch(ci), "") IN
    \A n \in DOMAIN d : n \in DOMAIN full /\ (Res(Arch(ci), n).kind # "arch" => d[n] = full[n])
\* Rust shows an archive only as it was written, but for optional resources that are gone entirely
RsAllOrNothing == (RsErr(F, Arch(ci), "") = {} /\ ~Odd(dmg)) =>
    LET d == RsDump(F, Arch(ci), "") full == RsDump(Base[ci], Arch(ci), "") IN
    /\ \A n \in DOMAIN d : n \in DOMAIN full /\ (Res(Arch(ci), n).kind # "arch" => d[n] = full[n])
    /\ \A n \in DOMAIN full \ DOMAIN d : Res(Arch(ci), n).opt /\ \E p \in DOMAIN dmg : dmg[p] \in {"absent", "rmdir"} /\ IsPrefix(n, p)
\* damage to an optional resource never closes a C++ archive
OptionalHarmless == (\A p \in DOMAIN dmg : \E r \in ToSet(Archives[Arch(ci)]) :
                        r.opt /\ (p \in {r.name, r.name \o ".schema", r.name \o "_index", r.name \o "_index.schema"} \/ IsPrefix(r.name \o "/", p)))
                    => CppOpen(F, Arch(ci), "")
=============================================================================
