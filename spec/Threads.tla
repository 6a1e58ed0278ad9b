------------------------------ MODULE Threads ------------------------------
(* Threads reading files through one storage that maps a file once and keeps the mapping until it is      *)
(* dropped itself.  Whole = TRUE: a file is looked up, mapped and remembered in one step (one lock is held). *)
(* Whole = FALSE takes the steps apart; it only serves to enumerate the orders in which threads can meet.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Threads, Paths, There, Whole
VARIABLES pc, want, maps, live, mine, view, hist
vars == <<pc, want, maps, live, mine, view, hist>>
None == 0
Init == /\ want \in [Threads -> Paths]
        /\ pc = [t \in Threads |-> "idle"] /\ maps = [p \in Paths |-> None] /\ live = {} /\ mine = [t \in Threads |-> None]
        /\ view = [t \in Threads |-> None] /\ hist = <<>>
Busy == \E t \in Threads : pc[t] \in {"looking", "mapped"}
Note(what, t) == hist' = Append(hist, <<what, t>>)
Fresh == CHOOSE n \in 1..(Cardinality(Threads) + 1) : n \notin live /\ \A t \in Threads : mine[t] # n
Start(t) == /\ pc[t] = "idle" /\ (Whole => ~Busy)
            /\ IF want[t] \notin There THEN pc' = [pc EXCEPT ![t] = "missing"] /\ UNCHANGED view
               ELSE IF maps[want[t]] # None THEN pc' = [pc EXCEPT ![t] = "done"] /\ view' = [view EXCEPT ![t] = maps[want[t]]]
               ELSE pc' = [pc EXCEPT ![t] = "looking"] /\ UNCHANGED view
            /\ Note("start", t) /\ UNCHANGED <<want, maps, live, mine>>
Open(t) == /\ pc[t] = "looking" /\ pc' = [pc EXCEPT ![t] = "mapped"]
           /\ mine' = [mine EXCEPT ![t] = Fresh] /\ live' = live \cup {Fresh}
           /\ Note("open", t) /\ UNCHANGED <<want, maps, view>>
\* remembering a mapping drops the one remembered before
Keep(t) == /\ pc[t] = "mapped" /\ pc' = [pc EXCEPT ![t] = "done"]
           /\ maps' = [maps EXCEPT ![want[t]] = mine[t]] /\ live' = live \ ({maps[want[t]]} \ {None})
           /\ view' = [view EXCEPT ![t] = mine[t]] /\ UNCHANGED <<want, mine, hist>>
Next == \E t \in Threads : Start(t) \/ Open(t) \/ Keep(t)
Spec == Init /\ [][Next]_vars

Live == \A t \in Threads : pc[t] = "done" => view[t] \in live
OneMapping == \A t, u \in Threads : pc[t] = "done" /\ pc[u] = "done" /\ want[t] = want[u] => view[t] = view[u]
Finished == \A t \in Threads : pc[t] \in {"done", "missing"}
Emit == IF Finished THEN PrintT("@@" \o ToJson([want |-> want, hist |-> hist])) ELSE TRUE
=============================================================================
