------------------------------- MODULE Shared -------------------------------
(* Threads calling one resource storage, through the storage itself and through storages of its          *)
(* directories.  A storage keeps tables (streams, resources, mappings); calls look things up there and    *)
(* change them, holding a lock while they do.  Tables and locks belong to one tree of storages ("tree")   *)
(* or to each storage object ("object").  Where two calls can be inside the same table, Exclusive fails.  *)
(* The programs of the threads, and the order in which their calls begin, are emitted for replay.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Calls, Tables, Locks, Handles
VARIABLES prog, busy, order
vars == <<prog, busy, order>>
Ops == {"put", "get", "has", "schemaof", "mkdir", "dir"}
Idle == [op |-> "idle", h |-> 0, whose |-> 0]
Init == prog = [t \in Threads |-> <<>>] /\ busy = [t \in Threads |-> Idle] /\ order = <<>>
Table(h) == IF Tables = "tree" THEN 0 ELSE h
Lock(h) == IF Locks = "tree" THEN 0 ELSE h
Inside(t) == busy[t].op # "idle"
\* what a call is about: whose = 0 a resource that was there before, otherwise the resource of that thread.
\* A resource being written is its writer's; the others may only ask whether it exists.
Allowed(t, o, w) == /\ (o = "put" => w = t) /\ (o \in {"get", "schemaof"} => w \in {0, t}) /\ (o \in {"mkdir", "dir"} => w = 0)
Begin(t) == \E o \in Ops, h \in Handles, w \in {0} \cup Threads :
    /\ ~Inside(t) /\ Len(prog[t]) < Calls /\ Allowed(t, o, w)
    /\ (o = "put" => \A i \in DOMAIN prog[t] : ~(prog[t][i].op = "put" /\ prog[t][i].h = h))
    /\ \A u \in Threads : Inside(u) => Lock(busy[u].h) # Lock(h)
    /\ LET c == [op |-> o, h |-> h, whose |-> w] IN prog' = [prog EXCEPT ![t] = Append(@, c)] /\ busy' = [busy EXCEPT ![t] = c]
    /\ order' = Append(order, t)
Finish(t) == Inside(t) /\ busy' = [busy EXCEPT ![t] = Idle] /\ UNCHANGED <<prog, order>>
Next == \E t \in Threads : Begin(t) \/ Finish(t)
Spec == Init /\ [][Next]_vars
Exclusive == \A t, u \in Threads : t # u /\ Inside(t) /\ Inside(u) => Table(busy[t].h) # Table(busy[u].h)
Full == \A t \in Threads : Len(prog[t]) = Calls /\ ~Inside(t)
Emit == IF Full THEN PrintT("@@" \o ToJson([prog |-> prog, order |-> order])) ELSE TRUE
\* calls that change a table, or look into one that another call changes, from two threads at the same time
Meet == IF ~Exclusive /\ (\A t \in Threads : Len(prog[t]) = Calls) THEN PrintT("@@" \o ToJson([prog |-> prog, order |-> order])) ELSE TRUE
=============================================================================
