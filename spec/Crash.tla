------------------------------- MODULE Crash -------------------------------
(* Writers that may die.  Every resource is written by one of the protocols of the two languages, its    *)
(* file operations interleaved with those of the others; stdio buffers what is not yet written.  Dying    *)
(* leaves whatever reached the files.  The invariant is what readers rely on: a resource that looks       *)
(* complete is complete, and stays so.                                                                    *)
(*                                                                                                        *)
(* Bytes are abstracted: a file is its length, its 8-byte header as a number, and whether its payload is   *)
(* the final one; the buffer of a C++ stream holds BUF bytes, writes of at least DIRECT bytes go out at    *)
(* once together with what is buffered.                                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Resources, Payloads,    \* resources, and the payload lengths they may have
          Flush,                  \* growing vectors write out whenever they hold more than this
          BUF, DIRECT,
          Elem,                   \* growing vectors hold whole elements of this size
          Protocols,              \* which of "set", "grow", "python", "rset", "rgrow" to use
          NoSize                  \* what Rust writes in place of a size it does not know yet

VARIABLES how,      \* resource -> [proto, len]
          pc,       \* resource -> step
          sent,     \* resource -> payload bytes handed to the stream so far (growing vectors)
          buf,      \* resource -> bytes waiting in the stream's buffer
          file,     \* resource -> [there, len, hdr]
          schema,   \* resource -> "none", "part", "full"
          finished  \* resources whose writing call has returned
vars == <<how, pc, sent, buf, file, schema, finished>>

Framing == 16
Total(r) == how[r].len + Framing
Init == /\ how \in [Resources -> {[proto |-> p, len |-> n] : p \in Protocols, n \in Payloads}]
        /\ pc = [r \in Resources |-> "start"]
        /\ sent = [r \in Resources |-> 0] /\ buf = [r \in Resources |-> 0]
        /\ file = [r \in Resources |-> [there |-> FALSE, len |-> 0, hdr |-> 0]]
        /\ schema = [r \in Resources |-> "none"] /\ finished = {}

Go(r, s) == pc' = [pc EXCEPT ![r] = s]
\* hand n bytes to the stream: either they wait, or everything goes out in one operation (full: the header that goes out)
Feed(r, n, hdr) ==
    IF n >= DIRECT \/ buf[r] + n > BUF
    THEN /\ file' = [file EXCEPT ![r].len = @ + buf[r] + n, ![r].hdr = IF file[r].len = 0 THEN hdr ELSE @]
         /\ buf' = [buf EXCEPT ![r] = 0]
    ELSE /\ buf' = [buf EXCEPT ![r] = @ + n] /\ UNCHANGED file
Drain(r, hdr) == /\ file' = [file EXCEPT ![r].len = @ + buf[r], ![r].hdr = IF file[r].len = 0 THEN hdr ELSE @]
                 /\ buf' = [buf EXCEPT ![r] = 0]
Open(r) == file' = [file EXCEPT ![r] = [there |-> TRUE, len |-> 0, hdr |-> 0]]

\* schema files: created empty, then written
SchemaSteps(r, a, b, next) ==
    \/ pc[r] = a /\ schema' = [schema EXCEPT ![r] = "part"] /\ Go(r, b) /\ UNCHANGED <<how, sent, buf, file, finished>>
    \/ pc[r] = b /\ schema' = [schema EXCEPT ![r] = "full"] /\ Go(r, next) /\ UNCHANGED <<how, sent, buf, file, finished>>

Set(r) == how[r].proto = "set" /\
    \/ pc[r] = "start" /\ Open(r) /\ Go(r, "header") /\ UNCHANGED <<how, sent, buf, schema, finished>>
    \/ pc[r] = "header" /\ Feed(r, 8, how[r].len) /\ Go(r, "data") /\ UNCHANGED <<how, sent, schema, finished>>
    \/ pc[r] = "data" /\ Feed(r, how[r].len, how[r].len) /\ Go(r, "padding") /\ UNCHANGED <<how, sent, schema, finished>>
    \/ pc[r] = "padding" /\ Feed(r, 8, how[r].len) /\ Go(r, "drain") /\ UNCHANGED <<how, sent, schema, finished>>
    \/ pc[r] = "drain" /\ Drain(r, how[r].len) /\ Go(r, "schema") /\ UNCHANGED <<how, sent, schema, finished>>
    \/ SchemaSteps(r, "schema", "schema2", "return")

Python(r) == how[r].proto = "python" /\
    \/ SchemaSteps(r, "start", "schema2", "open")
    \/ pc[r] = "open" /\ Open(r) /\ Go(r, "all") /\ UNCHANGED <<how, sent, buf, schema, finished>>
    \/ pc[r] = "all" /\ file' = [file EXCEPT ![r].len = Total(r), ![r].hdr = how[r].len] /\ Go(r, "return")
       /\ UNCHANGED <<how, sent, buf, schema, finished>>

Grow(r) == how[r].proto = "grow" /\
    \/ SchemaSteps(r, "start", "schema2", "open")
    \/ pc[r] = "open" /\ Open(r) /\ Go(r, "placeholder") /\ UNCHANGED <<how, sent, buf, schema, finished>>
    \/ pc[r] = "placeholder" /\ Feed(r, 8, 0) /\ Go(r, "growing") /\ UNCHANGED <<how, sent, schema, finished>>
       \* a full internal buffer goes out when the next element comes
    \/ /\ pc[r] = "growing" /\ how[r].len - sent[r] > Flush
       /\ LET n == (Flush \div Elem + 1) * Elem IN
          /\ n < how[r].len - sent[r]
          /\ Feed(r, n, 0) /\ sent' = [sent EXCEPT ![r] = @ + n]
       /\ UNCHANGED <<how, pc, schema, finished>>
    \/ /\ pc[r] = "growing" /\ how[r].len - sent[r] <= (Flush \div Elem + 1) * Elem
       /\ Feed(r, how[r].len - sent[r], 0) /\ sent' = [sent EXCEPT ![r] = how[r].len] /\ Go(r, "padding")
       /\ UNCHANGED <<how, schema, finished>>
    \/ pc[r] = "padding" /\ Feed(r, 8, 0) /\ Go(r, "seek") /\ UNCHANGED <<how, sent, schema, finished>>
    \/ pc[r] = "seek" /\ Drain(r, 0) /\ Go(r, "size") /\ UNCHANGED <<how, sent, schema, finished>>
    \/ pc[r] = "size" /\ file' = [file EXCEPT ![r].hdr = how[r].len] /\ Go(r, "return") /\ UNCHANGED <<how, sent, buf, schema, finished>>

\* Rust: nothing is buffered
RWrite(r, n, hdr) == file' = [file EXCEPT ![r].len = @ + n, ![r].hdr = IF file[r].len = 0 THEN hdr ELSE @]
RSet(r) == how[r].proto = "rset" /\
    \/ pc[r] = "start" /\ Open(r) /\ Go(r, "header") /\ UNCHANGED <<how, sent, buf, schema, finished>>
    \/ pc[r] = "header" /\ RWrite(r, 8, how[r].len) /\ Go(r, "data") /\ UNCHANGED <<how, sent, buf, schema, finished>>
    \/ pc[r] = "data" /\ RWrite(r, how[r].len, how[r].len) /\ Go(r, "padding") /\ UNCHANGED <<how, sent, buf, schema, finished>>
    \/ pc[r] = "padding" /\ RWrite(r, 8, how[r].len) /\ Go(r, "schema") /\ UNCHANGED <<how, sent, buf, schema, finished>>
    \/ SchemaSteps(r, "schema", "schema2", "return")
RGrow(r) == how[r].proto = "rgrow" /\
    \/ SchemaSteps(r, "start", "schema2", "open")
    \/ pc[r] = "open" /\ Open(r) /\ Go(r, "placeholder") /\ UNCHANGED <<how, sent, buf, schema, finished>>
    \/ pc[r] = "placeholder" /\ RWrite(r, 8, NoSize) /\ Go(r, "growing") /\ UNCHANGED <<how, sent, buf, schema, finished>>
    \/ /\ pc[r] = "growing" /\ how[r].len - sent[r] > Flush
       /\ LET n == (Flush \div Elem + 1) * Elem IN
          /\ n < how[r].len - sent[r]
          /\ RWrite(r, n, 0) /\ sent' = [sent EXCEPT ![r] = @ + n]
       /\ UNCHANGED <<how, pc, buf, schema, finished>>
    \/ /\ pc[r] = "growing" /\ how[r].len - sent[r] <= (Flush \div Elem + 1) * Elem
       /\ RWrite(r, how[r].len - sent[r], 0) /\ sent' = [sent EXCEPT ![r] = how[r].len] /\ Go(r, "padding")
       /\ UNCHANGED <<how, buf, schema, finished>>
    \/ pc[r] = "padding" /\ RWrite(r, 8, 0) /\ Go(r, "size") /\ UNCHANGED <<how, sent, buf, schema, finished>>
    \/ pc[r] = "size" /\ file' = [file EXCEPT ![r].hdr = how[r].len] /\ Go(r, "return") /\ UNCHANGED <<how, sent, buf, schema, finished>>

Return(r) == pc[r] = "return" /\ finished' = finished \cup {r} /\ Go(r, "done") /\ UNCHANGED <<how, sent, buf, file, schema>>
Next == \E r \in Resources : Set(r) \/ Python(r) \/ Grow(r) \/ RSet(r) \/ RGrow(r) \/ Return(r)
Spec == Init /\ [][Next]_vars

\* what a reader takes for the resource
Looks(r) == schema[r] = "full" /\ file[r].there /\ file[r].len >= Framing /\ file[r].hdr = file[r].len - Framing
Complete(r) == file[r].len = Total(r) /\ file[r].hdr = how[r].len
NeverPartial == \A r \in Resources : Looks(r) => Complete(r)
StaysReadable == \A r \in finished : Looks(r)
OnceComplete == [][\A r \in Resources : Looks(r) => Looks(r)']_vars
Terminates == \A r \in Resources : pc[r] = "done" => r \in finished
=============================================================================
