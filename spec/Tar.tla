-------------------------------- MODULE Tar --------------------------------
(* Tar files.  A writer adds logical files and directories, choosing for each one of the ways GNU and    *)
(* ustar tars encode it (short name, ustar prefix, GNU long-name record, number format, padding,         *)
(* trailer); a reader walks the 512-byte blocks.  Names are sequences of tokens; the harness gives each   *)
(* token its text and each member its bytes.  The reader must list exactly the writer's intent, and       *)
(* reject what the writer spoiled.                                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS MaxMembers,    \* members per file (a file with its long-name record counts once)
          Rich,          \* TRUE: the full catalogue; FALSE: one variation of each kind
          Emits          \* emit cases with at least this many members

BLOCK == 512
Pad(n) == (BLOCK - (n % BLOCK)) % BLOCK

\* ---- tokens: text length of every name token
Len_ == [a |-> 1, b |-> 1, dir |-> 3, n99 |-> 99, n100 |-> 100, p155 |-> 155, l101 |-> 101, l511 |-> 511, l512 |-> 512, l700 |-> 700, dot |-> 2, slash |-> 1]
TextLen(n) == FoldLeft(LAMBDA s, t : s + Len_[t], 0, n)
Slash(p, n) == p \o <<"slash">> \o n

\* ---- a member is one header and its payload
\* t: typeflag; name: header name; pre: ustar prefix area; magic; num: number format; size: payload size; cls: "plain",
\* "huge" (more than the file holds), "overflow" or "malformed"; sum: checksum format; flip: header byte changed after the checksum was made (-1: none)
Member(t, name, pre, magic, num, size, sum) ==
    [t |-> t, name |-> name, pre |-> pre, magic |-> magic, num |-> num, size |-> size, cls |-> "plain", sum |-> sum, flip |-> 0 - 1, long |-> <<>>, content |-> "random"]

Nums == {"octal nul", "octal space", "octal leading spaces", "octal full", "base256"}
Sums == {"gnu", "seven digits", "leading spaces", "base256"}
Sizes == {0, 1, 511, 512, 513, 1500}
Simple(name, magic, size) == Member("0", name, <<>>, magic, "octal nul", size, "gnu")
LongRecord(text, nul, num) ==
    [Member("L", <<"dot", "a">>, <<>>, "gnu", num, TextLen(text) + (IF nul THEN 1 ELSE 0), "gnu") EXCEPT !.long = text]

\* ways to store a regular file: a record [name (intent), size, ms (members)]
File(name, size, ms) == [name |-> name, size |-> size, ms |-> ms, good |-> TRUE, dir |-> FALSE]
Short ==
    {File(n, 20, <<[Simple(n, "gnu", 20) EXCEPT !.t = t, !.magic = g]>>) : n \in {<<"a">>, <<"dir", "slash", "a">>}, t \in {"0", "nul"}, g \in {"gnu", "ustar", "v7"}}
    \cup {File(<<"b">>, s, <<[Simple(<<"b">>, "gnu", s) EXCEPT !.num = k]>>) : s \in Sizes, k \in Nums}
    \cup {File(<<"b">>, 3, <<[Simple(<<"b">>, "ustar", 3) EXCEPT !.sum = k]>>) : k \in Sums}
    \cup {File(<<"b">>, 1536, <<[Simple(<<"b">>, "gnu", 1536) EXCEPT !.content = k]>>) : k \in {"zeros", "header"}}
    \cup {File(n, 5, <<Simple(n, g, 5)>>) : n \in {<<"n99">>, <<"n100">>, <<"dot", "a">>, <<"dot", "dir", "slash", "b">>}, g \in {"gnu", "ustar", "v7"}}
Prefixed ==
    {File(Slash(p, n), 7, <<[Simple(n, "ustar", 7) EXCEPT !.pre = p]>>) : p \in {<<"dir">>, <<"p155">>, <<"dot", "dir">>}, n \in {<<"a">>, <<"n100">>}}
    \* GNU tars keep times in the prefix area, v7 tars anything: not part of the name
    \cup {File(n, 7, <<[Simple(n, g, 7) EXCEPT !.pre = <<"dir">>]>>) : g \in {"gnu", "v7"}, n \in {<<"a">>, <<"n100">>}}
Long ==
    {File(l, 9, <<LongRecord(l, nul, k), [Simple(<<"n100">>, "gnu", 9) EXCEPT !.t = t]>>) :
        l \in {<<"l101">>, <<"l511">>, <<"l512">>, <<"l700">>, <<"dot", "l101">>, <<"dir", "slash", "l101">>}, nul \in {TRUE, FALSE}, k \in {"octal nul", "base256"}, t \in {"0", "nul"}}
    \* a long name wins over name and prefix, whatever they hold
    \cup {File(<<"l101">>, 9, <<LongRecord(<<"l101">>, TRUE, "octal nul"), [Simple(<<"a">>, "ustar", 9) EXCEPT !.pre = <<"dir">>]>>)}
Dirs ==
    {[name |-> n, size |-> 0, ms |-> ms, good |-> TRUE, dir |-> TRUE] :
        n \in {<<"dir">>}, ms \in {<<Member("5", <<"dir", "slash">>, <<>>, g, "octal nul", 0, "gnu")>> : g \in {"gnu", "ustar"}}
                                  \cup {<<LongRecord(<<"l101">>, TRUE, "octal nul"), Member("5", <<"n100">>, <<>>, "gnu", "octal nul", 0, "gnu")>>}
                                  \cup {<<Member("5", <<"dot">>, <<>>, "gnu", "octal nul", 0, "gnu")>>}}
\* what makes a tar unacceptable
Bad(m) == [name |-> <<>>, size |-> 0, ms |-> m, good |-> FALSE, dir |-> FALSE]
Spoiled ==
    {Bad(<<Member(t, <<"a">>, <<>>, "gnu", "octal nul", 0, "gnu")>>) : t \in {"1", "2", "3", "4", "6", "7", "K", "S", "x", "g", "V", "M", "Z"}}
    \cup {Bad(<<[Simple(<<"a">>, "gnu", 20) EXCEPT !.num = k, !.cls = "malformed"]>>) : k \in {"letter", "eight", "minus", "late"}}
    \cup {Bad(<<[Simple(<<"a">>, "gnu", 20) EXCEPT !.num = k, !.cls = "overflow"]>>) : k \in {"2^64", "2^64-1", "2^80", "negative"}}
    \cup {Bad(<<[Simple(<<"a">>, "gnu", 20) EXCEPT !.sum = k]>>) : k \in {"plus one", "minus one", "empty", "letter"}}
    \cup {Bad(<<[LongRecord(<<"l101">>, TRUE, "octal nul") EXCEPT !.sum = "plus one"], Simple(<<"a">>, "gnu", 20)>>)}
    \cup {Bad(<<[LongRecord(<<"l101">>, TRUE, "eight") EXCEPT !.cls = "malformed"], Simple(<<"a">>, "gnu", 20)>>)}
\* a byte changed after the checksum was made (checksum field: 148..155)
Flips == {Bad(<<[m EXCEPT !.flip = p]>>) : m \in {Simple(<<"a">>, "gnu", 20), [Simple(<<"a">>, "ustar", 20) EXCEPT !.pre = <<"dir">>]}, p \in (0..511) \ (148..155)}
\* the payload of the last member is not there
Huge == {[name |-> <<"a">>, size |-> 0, ms |-> <<[Simple(<<"a">>, "gnu", 0) EXCEPT !.num = k, !.cls = "huge"]>>, good |-> TRUE, dir |-> FALSE] :
            k \in {"octal 20G", "base256 20G", "base256 2^62", "octal 5000"}}

Some(S) == IF Rich \/ Cardinality(S) < 4 THEN S ELSE {CHOOSE x \in S : TRUE}
\* one representative of every way, for longer files
Few == {CHOOSE f \in Short : f.name = <<"a">> /\ f.ms[1].t = "0" /\ f.ms[1].magic = "gnu",
        CHOOSE f \in Short : f.name = <<"dir", "slash", "a">> /\ f.ms[1].t = "nul" /\ f.ms[1].magic = "v7",
        CHOOSE f \in Short : f.name = <<"b">> /\ f.size = 513 /\ f.ms[1].num = "base256",
        CHOOSE f \in Short : f.ms[1].content = "header",
        CHOOSE f \in Short : f.ms[1].content = "zeros",
        CHOOSE f \in Short : f.name = <<"dot", "a">> /\ f.ms[1].magic = "ustar",
        CHOOSE f \in Prefixed : f.name = Slash(<<"dir">>, <<"a">>),
        CHOOSE f \in Prefixed : f.name = Slash(<<"p155">>, <<"n100">>),
        CHOOSE f \in Long : f.name = <<"l512">> /\ Len(f.ms) = 2 /\ f.ms[1].size = 513,
        CHOOSE f \in Long : f.name = <<"dir", "slash", "l101">> /\ f.ms[1].num = "base256",
        CHOOSE f \in Long : f.ms[2].pre = <<"dir">>}
       \cup Dirs
FewBad == {CHOOSE f \in Spoiled : f.ms[1].t = "x", CHOOSE f \in Spoiled : f.ms[1].sum = "plus one" /\ Len(f.ms) = 1,
           CHOOSE f \in Spoiled : f.ms[1].num = "2^64-1", CHOOSE f \in Spoiled : f.ms[1].num = "letter",
           CHOOSE f \in Huge : f.ms[1].num = "base256 2^62", CHOOSE f \in Huge : f.ms[1].num = "octal 5000"}
All == Short \cup Prefixed \cup Long \cup Dirs \cup Spoiled \cup Huge
Catalogue(k) == IF k = 0 THEN All \cup Flips ELSE IF Rich /\ k = 1 THEN All ELSE Few \cup FewBad
Trailers == {"none", "one", "two", "record", "garbage"}

VARIABLES fs,      \* what the writer stored, in order
          end      \* "open" while the writer writes, then the trailer
vars == <<fs, end>>
Init == fs = <<>> /\ end = "open"
IsHuge(f) == f.ms[1].cls = "huge"
Add == /\ end = "open" /\ Len(fs) < MaxMembers
       /\ fs # <<>> => ~IsHuge(Last(fs))
       /\ \E f \in Catalogue(Len(fs)) :
             /\ Len(fs) >= 1 /\ ~Rich => fs[1] \in Few \cup FewBad
             /\ fs' = Append(fs, f)
       /\ UNCHANGED end
Finish == /\ end = "open"
          /\ \E t \in IF Len(fs) <= 1 THEN Trailers ELSE {"none", "two"} : end' = t
          /\ fs # <<>> /\ IsHuge(Last(fs)) => end' \in {"none", "two"}
          /\ UNCHANGED fs
Next == Add \/ Finish
Spec == Init /\ [][Next]_vars
\* random longer files
AddRandom == /\ end = "open" /\ Len(fs) < MaxMembers /\ (fs # <<>> => ~IsHuge(Last(fs)))
             /\ \E bad \in {RandomElement(1..12)} :
                \E f \in {RandomElement(IF bad = 1 THEN Spoiled \cup Huge ELSE Short \cup Prefixed \cup Long \cup Dirs)} : fs' = Append(fs, f)
             /\ UNCHANGED end
FinishRandom == /\ Len(fs) = MaxMembers \/ (fs # <<>> /\ IsHuge(Last(fs))) 
                /\ Finish
SpecRandom == Init /\ [][AddRandom \/ FinishRandom]_vars

\* ---- the reader: a walk over the members as laid out in the file
Members == FlattenSeq([i \in DOMAIN fs |-> fs[i].ms])
PayloadLen(m) == IF m.cls = "plain" THEN m.size ELSE 0
SpoiledMember(m) == \/ m.sum \in {"plus one", "minus one", "empty", "letter"} \/ m.flip >= 0
                    \/ m.t \notin {"0", "nul", "5", "L"} \/ m.cls \in {"malformed", "overflow"}
HeaderName(m) == IF m.magic = "ustar" /\ m.pre # <<>> THEN Slash(m.pre, m.name) ELSE m.name
RECURSIVE Walk(_, _, _, _)
Walk(ms, at, pending, got) ==
    IF ms = <<>> THEN [ok |-> TRUE, got |-> got]
    ELSE LET m == Head(ms)
             body == at + BLOCK
             next == body + PayloadLen(m) + Pad(PayloadLen(m)) IN
         IF SpoiledMember(m) THEN [ok |-> FALSE, got |-> <<>>]
         ELSE CASE m.t = "L" -> Walk(Tail(ms), next, m.long, got)
                [] m.t = "5" -> Walk(Tail(ms), next, <<>>, got)
                [] OTHER -> LET e == [name |-> IF pending # <<>> THEN pending ELSE HeaderName(m), at |-> body, size |-> m.size, huge |-> m.cls = "huge"]
                            IN IF m.cls = "huge" THEN [ok |-> TRUE, got |-> Append(got, e)]
                               ELSE Walk(Tail(ms), next, <<>>, Append(got, e))
Read == Walk(Members, 0, <<>>, <<>>)
\* names as the storage offers them: a leading "./" dropped, the last member of a name wins
Offer(n) == IF n[1] = "dot" /\ Len(n) > 1 THEN Tail(n) ELSE n
Offered(got) == {[got[i] EXCEPT !.name = Offer(@)] : i \in {j \in DOMAIN got : \A k \in (j + 1)..Len(got) : Offer(got[k].name) # Offer(got[j].name)}}

\* ---- properties of the format itself
Intent == [i \in DOMAIN fs |-> <<fs[i].name, fs[i].size>>]
Good == \A i \in DOMAIN fs : fs[i].good
ListsIntent == Good => /\ Read.ok
                       /\ [i \in DOMAIN Read.got |-> <<Read.got[i].name, Read.got[i].size>>]
                            = [i \in DOMAIN SelectSeq(fs, LAMBDA f : ~f.dir) |-> LET f == SelectSeq(fs, LAMBDA g : ~g.dir)[i] IN <<f.name, f.size>>]
RejectsSpoiled == ~Good => ~Read.ok
Disjoint == Read.ok => \A i \in DOMAIN Read.got : \A j \in DOMAIN Read.got :
    i < j => Read.got[i].at + Read.got[i].size <= Read.got[j].at - BLOCK
NamesOnce == \A a \in Offered(Read.got) : \A b \in Offered(Read.got) : a.name = b.name => a = b
Emit == end = "open" \/ Len(fs) < Emits \/ PrintT("@@" \o ToJson([ms |-> Members, end |-> end, ok |-> Read.ok, list |-> Read.got, map |-> Offered(Read.got)]))
=============================================================================
