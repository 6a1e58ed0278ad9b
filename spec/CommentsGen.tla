----------------------------- MODULE CommentsGen -----------------------------
(* Comments made of fragments. *)
EXTENDS Comments
CONSTANTS MaxLen, Fragments
Frag == [x |-> <<120>>, blank |-> <<SP>>, newline |-> <<NL>>, star |-> <<STAR>>, slash |-> <<SLASH>>, slashes |-> <<SLASH, SLASH>>, open |-> <<SLASH, STAR>>, quote |-> <<QUOTE>>,
         triple |-> <<QUOTE, QUOTE, QUOTE>>, single |-> <<39>>, backslash |-> <<BS>>, bang |-> <<BANG>>, hash |-> <<HASH>>, tick |-> <<TICK>>, braces |-> <<123, 123>>, close |-> <<125>>,
         percent |-> <<123, 37>>, semi |-> <<59>>, func |-> <<102, 117, 110, 99, SP, 120>>, unit |-> <<92, 117, 49>>, starline |-> <<NL, SP, STAR, SP>>, umlaut |-> <<252>>, attr |-> <<HASH, 91, 120, 93>>]
VARIABLE b
Init == b = <<>>
Next == Len(b) < MaxLen /\ \E f \in Fragments : b' = Append(b, f)
Spec == Init /\ [][Next]_b
Body == FlattenSeq([i \in DOMAIN b |-> Frag[b[i]]])
Emit == /\ LineLegal(Body) => PrintT("@@" \o ToJson([doc |-> LineDoc(Body)]))
        /\ BlockLegal(Body) => PrintT("@@" \o ToJson([doc |-> BlockDoc(Body)]))
\* every comment is one: a schema's scanner finds nothing before, in or behind it
Whole == /\ LineLegal(Body) => CodeOf("flatdata", <<120>> \o LineDoc(Body) \o <<NL, 121>>) = <<120, 121>>
         /\ BlockLegal(Body) => CodeOf("flatdata", <<120>> \o BlockDoc(Body) \o <<121>>) = <<120, 121>>
=============================================================================
