------------------------------- MODULE Engine -------------------------------
(* The generator as its users run it: schemas are opened, opened schemas are rendered into languages, in    *)
(* any order and as often as one likes, and the command line writes the result to a file.  What comes out   *)
(* depends on nothing but the schema and the language; what cannot be generated leaves files as they were.  *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Good, Wrong, Langs, NoLang, Files, MaxOps
Schemas == Good \cup Wrong
VARIABLES engines, files, hist
vars == <<engines, files, hist>>
\* engines: the schema of each opened one; files: what each holds - <<>>, <<"old">> or <<schema, language>>
Init == engines = <<>> /\ files \in [Files -> {<<>>, <<"old">>}] /\ hist = <<>>
Room == Len(hist) < MaxOps
Step(op) == hist' = Append(hist, op)
Open(s) ==
    LET ok == s \in Good IN
    /\ Room /\ UNCHANGED files
    /\ engines' = (IF ok THEN Append(engines, s) ELSE engines)
    /\ Step([op |-> "open", s |-> s, ok |-> ok])
Render(e, g) ==
    /\ Room /\ UNCHANGED <<engines, files>>
    /\ Step([op |-> "render", e |-> e, s |-> engines[e], g |-> g, ok |-> g # NoLang])
Command(s, g, f) ==
    LET ok == s \in Good /\ g # NoLang IN
    /\ Room /\ UNCHANGED engines
    /\ files' = (IF ok THEN [files EXCEPT ![f] = <<s, g>>] ELSE files)
    /\ Step([op |-> "command", s |-> s, g |-> g, f |-> f, ok |-> ok, before |-> files[f], after |-> files'[f]])
Next == \/ \E s \in Schemas : Open(s)
        \/ \E e \in DOMAIN engines, g \in Langs \cup {NoLang} : Render(e, g)
        \/ \E s \in Schemas, g \in Langs \cup {NoLang}, f \in Files : Command(s, g, f)
Spec == Init /\ [][Next]_vars
\* an engine keeps its schema, a file what was last generated into it
Kept == \A k \in DOMAIN hist : hist[k].op = "render" => hist[k].s \in Good
OnlyResults == \A f \in Files : Len(files[f]) = 2 => \E k \in DOMAIN hist : hist[k].op = "command" /\ hist[k].f = f /\ hist[k].ok /\ hist[k].after = files[f]
Untouched == \A k \in DOMAIN hist : (hist[k].op = "command" /\ ~hist[k].ok) => hist[k].after = hist[k].before
Emit == Len(hist) = MaxOps => PrintT("@@" \o ToJson([hist |-> hist, files |-> files]))
=============================================================================
