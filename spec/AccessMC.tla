------------------------------- MODULE AccessMC -------------------------------
(* A reader with a cursor over a sequence (slices) and over a growing payload (strings): the laws       *)
(* users of sequences rely on, and the generator of every slice for the replays.                        *)
EXTENDS Access
CONSTANTS MaxLen, Reach, MaxStep, Alphabet, MaxBytes
Seps == ToSet(Model.seps)
Steps == (1..MaxStep) \cup {-k : k \in 1..MaxStep}
VARIABLES n, a, b, s, pay
vars == <<n, a, b, s, pay>>
Nums == {<<>>} \cup {<<i>> : i \in (-Reach)..Reach}
SliceInit == n \in 0..MaxLen /\ a \in Nums /\ b \in Nums /\ s \in ({<<>>} \cup {<<i>> : i \in Steps}) /\ pay = <<>>
SliceSpec == SliceInit /\ [][FALSE]_vars
V == [i \in 1..n |-> i]
P == Positions(n, a, b, s)
EmitSlice == PrintT("@@" \o ToJson([n |-> n, a |-> a, b |-> b, s |-> s]))
Inside == \A k \in DOMAIN P : P[k] \in 0..(n - 1)
Even == \A k \in 1..(Len(P) - 1) : P[k + 1] - P[k] = StepOf(s)
Split == \A k \in (-Reach)..Reach : Slice(V, <<>>, <<k>>, <<>>) \o Slice(V, <<k>>, <<>>, <<>>) = V
Backwards == Slice(V, <<>>, <<>>, <<-1>>) = [i \in 1..n |-> n + 1 - i]
\* a longer stride takes every st-th element of the unit stride
Stride == LET st == StepOf(s) unit == Slice(V, a, b, IF st > 0 THEN <<1>> ELSE <<-1>>) k == IF st > 0 THEN st ELSE -st IN
          Slice(V, a, b, s) = [i \in 1..((Len(unit) + k - 1) \div k) |-> unit[(i - 1) * k + 1]]
\* nothing is left out: the slice stops only at its bound
Full == (StepOf(s) > 0 /\ a # <<>> /\ b # <<>> /\ a[1] >= 0 /\ b[1] >= 0) =>
            {P[k] : k \in DOMAIN P} = {p \in 0..(n - 1) : p >= a[1] /\ p < b[1] /\ (p - a[1]) % StepOf(s) = 0}

PayInit == n = 0 /\ a = <<>> /\ b = <<>> /\ s = <<>> /\ pay = <<>>
PayNext == Len(pay) < MaxBytes /\ \E x \in Alphabet : pay' = Append(pay, x) /\ UNCHANGED <<n, a, b, s>>
PaySpec == PayInit /\ [][PayNext]_vars
EmitPay == PrintT("@@" \o ToJson([pay |-> pay]))
RECURSIVE Joined(_, _)
Joined(ss, sep) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o sep \o Joined(Tail(ss), sep)
\* strings and separators put together are the payload, up to an unfinished string
Whole == \A i \in 0..Len(pay) : \A sep \in Seps :
            LET all == Joined(Strings(pay, i, sep, <<>>, <<>>), sep) IN
            pay = SubSeq(pay, 1, i) \o all \o SubStr(pay, i + Len(all), sep) /\ Find(pay, i + Len(all), sep) = Len(pay)
Clean == \A i \in 0..Len(pay) : \A sep \in Seps : LET x == SubStr(pay, i, sep) IN \A j \in 0..Len(x) : ~At(x, j, sep)
First == \A i \in 0..Len(pay) : \A sep \in Seps :
            LET all == Strings(pay, i, sep, <<>>, <<>>) IN
            /\ all # <<>> => all[1] = SubStr(pay, i, sep)
            /\ \A c \in 0..3 : Strings(pay, i, sep, <<c>>, <<>>) = SubSeq(all, 1, Lo(c, Len(all)))
            /\ \A ls \in Seps : LET x == Strings(pay, i, sep, <<>>, ls) IN x = SubSeq(all, 1, Len(x))
=============================================================================
