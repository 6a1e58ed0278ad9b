------------------------------- MODULE Builder -------------------------------
(* The archive builder as a state machine over the files of one root archive.                       *)
(*  st.files  path -> file          st.pend  paths being written (their bytes are not yet prescribed)   *)
(*  st.bs     handle -> builder     st.gs    handle -> growing resource                                 *)
(*  st.ro     the storage refuses writes (tar files)                                                    *)
(* Apply(st, op) is the state after op and the result the caller sees.  Everything is deterministic, so *)
(* the same operator generates histories (BuilderGen) and judges recorded ones (BuilderTrace).          *)
EXTENDS Rust
\* The Rust builder (Model.rust) never opens an archive that exists, hands out no builder then, and keeps no subbuilders.
ForRust == "rust" \in DOMAIN Model /\ Model.rust

State0(files, ro) == [files |-> files, pend |-> {}, bs |-> <<>>, gs |-> <<>>, ro |-> ro]
Answer(st, res) == [st |-> st, res |-> res]
Put(f, k, v) == (k :> v) @@ f

\* opening a builder for `arch` at directory `pre` under handle id
OpenBuilder(st, id, arch, pre) ==
    LET sig == pre \o arch \o ".archive"
        b(open, created) == [arch |-> arch, pre |-> pre, open |-> open, created |-> created, subs |-> <<>>]
    IN IF FileAt(st.files, sig).k = "absent"
       THEN IF st.ro THEN Answer([st EXCEPT !.bs = Put(@, id, b(FALSE, FALSE))], "refused")
            ELSE Answer([st EXCEPT !.files = SignatureFiles(arch, pre) @@ @, !.bs = Put(@, id, b(TRUE, TRUE))], "ok")
       ELSE IF ForRust THEN Answer(st, "refused")
       ELSE IF SignatureOk(st.files, arch, pre)
            THEN Answer([st EXCEPT !.bs = Put(@, id, b(TRUE, FALSE))], "ok")
            ELSE Answer([st EXCEPT !.bs = Put(@, id, b(FALSE, FALSE))], "refused")

OpenSub(st, id, bid, name) ==
    LET b == st.bs[bid]
        r == Res(b.arch, name)
    IN IF ~ForRust /\ name \in DOMAIN b.subs /\ b.subs[name].open
       THEN Answer([st EXCEPT !.bs = Put(@, id, b.subs[name])], "ok")
       ELSE LET a == OpenBuilder(st, id, r.arch, b.pre \o name \o "/")
            IN IF ForRust THEN a ELSE Answer([a.st EXCEPT !.bs = Put(@, bid, [b EXCEPT !.subs = Put(@, name, a.st.bs[id])])], a.res)

Written(r, v) == IF ForRust THEN RsValue(r, v) ELSE v
SetRes(st, bid, name, v) ==
    LET b == st.bs[bid] r == Res(b.arch, name) IN
    IF ~b.created THEN Answer(st, "refused")
    ELSE Answer([st EXCEPT !.files = ResFiles(b.arch, b.pre, r, Written(r, v)) @@ @], "ok")

Pending(p) == p :> DataFile(<<>>)
StartRes(st, gid, bid, name) ==
    LET b == st.bs[bid] r == Res(b.arch, name) p == b.pre \o name
        multi == r.kind = "multi"
    IN IF ~b.created THEN Answer(st, "refused")
       ELSE Answer([st EXCEPT
              !.files = (p \o ".schema") :> SchemaFile(SchemaSym(b.arch, name)) @@ Pending(p)
                        @@ (IF multi THEN Pending(p \o "_index") @@ (p \o "_index.schema") :> SchemaFile(IndexSym(b.arch, name)) ELSE <<>>)
                        @@ @,
              !.pend = @ \cup (IF multi THEN {p, p \o "_index"} ELSE {p}),
              !.gs = Put(@, gid, [arch |-> b.arch, pre |-> b.pre, name |-> name, items |-> <<>>, open |-> TRUE])], "ok")
GrowRes(st, gid, v) == Answer([st EXCEPT !.gs[gid].items = Append(@, v)], "ok")
CloseRes(st, gid) ==
    LET g == st.gs[gid] r == Res(g.arch, g.name) p == g.pre \o g.name IN
    Answer([st EXCEPT !.files = ResFiles(g.arch, g.pre, r, Written(r, g.items)) @@ @, !.gs[gid].open = FALSE,
                      !.pend = @ \ {p, p \o "_index"}], "ok")
CloseView(st, gid) ==
    LET g == st.gs[gid] r == Res(g.arch, g.name) IN
    CppView(r, IF r.kind = "multi" THEN [i \in DOMAIN g.items |-> [k \in DOMAIN g.items[i] |-> <<g.items[i][k][1], CanonVals(g.items[i][k][1], g.items[i][k][2])>>]]
               ELSE [i \in DOMAIN g.items |-> CanonVals(r.types[1], g.items[i])])
\* all handles are gone; growing resources that were not closed stay unfinished for good
EndAll(st) == Answer([st EXCEPT !.bs = <<>>, !.gs = <<>>], "ok")

Apply(st, op) ==
    CASE op.op = "builder" -> OpenBuilder(st, op.id, op.arch, "")
      [] op.op = "sub" -> OpenSub(st, op.id, op.b, op.name)
      [] op.op = "set" -> SetRes(st, op.b, op.name, op.val)
      [] op.op = "start" -> StartRes(st, op.id, op.b, op.name)
      [] op.op = "grow" -> GrowRes(st, op.id, op.val)
      [] op.op = "close" -> CloseRes(st, op.id)
      [] op.op = "end" -> EndAll(st)
      [] OTHER -> Answer(st, "ok")                     \* read
=============================================================================
