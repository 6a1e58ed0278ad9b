------------------------------ MODULE Comments ------------------------------
(* Comments in a schema: what they may look like, and what is left of a generated text once its own     *)
(* comments are gone.  Texts are sequences of character codes.  A language's scanner is a state machine  *)
(* [m, d, s, e, p, q]: mode, nesting, characters still to be taken as they are, whether the last          *)
(* character belongs to the code, and the last two characters that did.                                   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json
NL == 10  QUOTE == 34  HASH == 35  STAR == 42  SLASH == 47  BS == 92  BANG == 33  TICK == 96  LP == 40  RP == 41  UR == 82  LR == 114  EQ == 61  COLON == 58  UC == 67  SP == 32
Blank(c) == c \in {9, NL, 13, SP}
At(t, i) == IF i \in DOMAIN t THEN t[i] ELSE 0
Is(t, i, s) == \A k \in DOMAIN s : At(t, i + k - 1) = s[k]

\* what a comment of a schema may be
Trimmed(s) == LET n == Cardinality({i \in DOMAIN s : \A j \in i..Len(s) : Blank(s[j])}) IN SubSeq(s, 1, Len(s) - n)
LineDoc(b) == <<SLASH, SLASH>> \o b
LineLegal(b) == NL \notin Range(b) /\ (Trimmed(b) = <<>> \/ Trimmed(b)[Len(Trimmed(b))] # BS)
BlockDoc(b) == <<SLASH, STAR>> \o b \o <<STAR, SLASH>>
BlockLegal(b) == \A i \in 1..Len(b) : ~Is(b \o <<STAR>>, i, <<STAR, SLASH>>)

\* the scanners: "cpp", "rust", "go", "py", "flatdata", "dot"
Start == [m |-> "code", d |-> 0, s |-> 0, e |-> FALSE, p |-> 0, q |-> 0]
Code(a, c) == [a EXCEPT !.e = TRUE, !.p = c, !.q = a.p]
Slashes(lang) == lang \in {"cpp", "rust", "go", "flatdata"}
\* the text of a Python docstring or of a resource's documentation
IsDoc(a) == a.p = COLON \/ (a.p = EQ /\ a.q = UC)
Scan(lang, a, t, i) ==
    LET c == t[i] IN
    IF a.s > 0 THEN [a EXCEPT !.s = @ - 1]
    ELSE CASE a.m = "code" ->
              IF Slashes(lang) /\ Is(t, i, <<SLASH, SLASH>>) THEN [a EXCEPT !.m = IF lang = "rust" /\ At(t, i + 2) = BANG THEN "bad" ELSE "line", !.e = FALSE]
              ELSE IF Slashes(lang) /\ Is(t, i, <<SLASH, STAR>>) THEN [a EXCEPT !.m = IF lang = "rust" /\ At(t, i + 2) = BANG THEN "bad" ELSE "block", !.d = 1, !.s = 1, !.e = FALSE]
              ELSE IF lang = "py" /\ c = HASH THEN [a EXCEPT !.m = "line", !.e = FALSE]
              ELSE IF lang = "py" /\ Is(t, i, <<QUOTE, QUOTE, QUOTE>>) THEN [a EXCEPT !.m = IF IsDoc(a) THEN "doc" ELSE "triple", !.s = 2, !.e = TRUE]
              ELSE IF lang = "cpp" /\ Is(t, i, <<UR, QUOTE, LP>>) THEN [Code(a, c) EXCEPT !.m = "raw", !.s = 2]
              ELSE IF lang = "rust" /\ Is(t, i, <<LR, HASH, QUOTE>>) THEN [Code(a, c) EXCEPT !.m = "raw", !.s = 2]
              ELSE IF lang = "go" /\ c = TICK THEN [Code(a, c) EXCEPT !.m = "raw"]
              ELSE IF c = QUOTE THEN [Code(a, c) EXCEPT !.m = "string"]
              ELSE IF Blank(c) THEN [a EXCEPT !.e = FALSE]
              ELSE Code(a, c)
           [] a.m = "line" -> IF c = NL /\ ~(lang = "cpp" /\ At(t, i - 1) = BS) THEN [a EXCEPT !.m = "code", !.e = FALSE] ELSE a
           [] a.m = "block" -> IF Is(t, i, <<STAR, SLASH>>) THEN [a EXCEPT !.m = IF a.d = 1 THEN "code" ELSE "block", !.d = @ - 1, !.s = 1]
                               ELSE IF lang = "rust" /\ Is(t, i, <<SLASH, STAR>>) THEN [a EXCEPT !.d = @ + 1, !.s = 1] ELSE a
           [] a.m = "string" -> IF c = BS THEN [Code(a, c) EXCEPT !.s = 1] ELSE IF c = QUOTE THEN [Code(a, c) EXCEPT !.m = "code"] ELSE Code(a, c)
           [] a.m = "raw" -> IF lang = "go" /\ c = TICK THEN [Code(a, c) EXCEPT !.m = "code"]
                             ELSE IF lang = "cpp" /\ Is(t, i, <<RP, QUOTE>>) THEN [Code(a, c) EXCEPT !.m = "code", !.s = 1]
                             ELSE IF lang = "rust" /\ Is(t, i, <<QUOTE, HASH>>) THEN [Code(a, c) EXCEPT !.m = "code", !.s = 1]
                             ELSE Code(a, c)
           [] a.m = "triple" -> IF c = BS THEN [Code(a, c) EXCEPT !.s = 1]
                                ELSE IF Is(t, i, <<QUOTE, QUOTE, QUOTE>>) THEN [Code(a, c) EXCEPT !.m = "code", !.s = 2] ELSE Code(a, c)
           \* what a documentation string says does not matter here, only where it ends
           [] a.m = "doc" -> IF Is(t, i, <<QUOTE, QUOTE, QUOTE>>) THEN [Code(a, c) EXCEPT !.m = "code", !.s = 2]
                             ELSE [a EXCEPT !.s = IF c = BS THEN 1 ELSE 0, !.e = FALSE]
           [] OTHER -> a

\* the code of a text
CodeOf(lang, t) == FoldLeft(LAMBDA a, i : LET b == Scan(lang, a.a, t, i) IN [a |-> b, out |-> IF b.e THEN Append(a.out, t[i]) ELSE a.out], [a |-> Start, out |-> <<>>], [i \in DOMAIN t |-> i]).out
\* whether a text has this code, and ends outside everything but a comment that ends with its line
SameCode(lang, t, code) ==
    LET z == FoldLeft(LAMBDA a, i : LET b == Scan(lang, a.a, t, i) IN [a |-> b, j |-> IF b.e THEN a.j + 1 ELSE a.j, ok |-> a.ok /\ (b.e => At(code, a.j + 1) = t[i])], [a |-> Start, j |-> 0, ok |-> TRUE], [i \in DOMAIN t |-> i])
    IN z.ok /\ z.j = Len(code) /\ z.a.m \in {"code", "line"}
=============================================================================
