---------------------------- MODULE SharedTrace ----------------------------
(* What threads were told by a storage they shared must be what the storage of Storage.tla would have     *)
(* told them, had it taken their calls one after another: some order of the calls, agreeing with when     *)
(* they began and ended, explains every answer.  Writing takes two steps, between which the resource may  *)
(* be found to exist or not.  Records: {handles, made, files, threads: call[][]},                         *)
(* call: {op, h, k, s, v, ok, b, e} (b, e: when it began and ended).                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, at, open, files, made
vars == <<l, at, open, files, made>>
R == Trace[l]
T == DOMAIN R.threads
Call(t) == R.threads[t][at[t] + 1]
Init == /\ l \in DOMAIN Trace /\ at = [t \in DOMAIN Trace[l].threads |-> 0] /\ open = [t \in DOMAIN Trace[l].threads |-> FALSE]
        /\ files = [p \in {Trace[l].files[i].p : i \in DOMAIN Trace[l].files} |->
                LET i == CHOOSE i \in DOMAIN Trace[l].files : Trace[l].files[i].p = p IN [s |-> Trace[l].files[i].s, v |-> Trace[l].files[i].v]]
        /\ made = {Trace[l].made[i] : i \in DOMAIN Trace[l].made}
More(t) == at[t] < Len(R.threads[t])
\* every call that ended before this one began has been taken
Now(t) == \A u \in T \ {t} : \A i \in DOMAIN R.threads[u] : R.threads[u][i].e < Call(t).b => at[u] >= i
Path(c) == R.handles[c.h] \o c.k
Done(t) == at' = [at EXCEPT ![t] = @ + 1] /\ UNCHANGED l
Begun == [s |-> "?", v |-> 0]
PutBegin(t) == /\ Call(t).op = "put" /\ ~open[t] /\ Path(Call(t)) \notin DOMAIN files
               /\ open' = [open EXCEPT ![t] = TRUE] /\ files' = (Path(Call(t)) :> Begun) @@ files /\ UNCHANGED <<l, at, made>>
PutEnd(t) == LET c == Call(t) IN
             /\ c.op = "put" /\ open[t] /\ c.ok
             /\ open' = [open EXCEPT ![t] = FALSE] /\ files' = [files EXCEPT ![Path(c)] = [s |-> c.s, v |-> c.v]] /\ Done(t) /\ UNCHANGED made
Look(t) == LET c == Call(t)
               there == Path(c) \in DOMAIN files IN
           /\ CASE c.op = "has" -> IF there /\ files[Path(c)] = Begun THEN TRUE ELSE c.ok = there
                [] c.op = "get" -> c.v = (IF there /\ files[Path(c)].s = c.s THEN files[Path(c)].v ELSE 0)
                [] c.op = "schemaof" -> c.s = (IF there THEN files[Path(c)].s ELSE "")
                [] c.op = "dir" -> c.ok = ((Path(c) \o "/") \in made)
                [] OTHER -> FALSE
           /\ Done(t) /\ UNCHANGED <<open, files, made>>
MkDir(t) == Call(t).op = "mkdir" /\ Call(t).ok /\ made' = made \cup {Path(Call(t)) \o "/"} /\ Done(t) /\ UNCHANGED <<open, files>>
Next == \E t \in T : More(t) /\ Now(t) /\ (PutBegin(t) \/ PutEnd(t) \/ Look(t) \/ MkDir(t))
TraceSpec == Init /\ [][Next]_vars
Told == IF \A t \in T : ~More(t) THEN PrintT("@@" \o ToJson([told |-> l])) ELSE TRUE
=============================================================================
