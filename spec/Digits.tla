------------------------------- MODULE Digits -------------------------------
(* Numbers too large for TLC: little-endian sequences of digits, as many as the numbers handed in have.  *)
EXTENDS Integers, Sequences
CONSTANT Base
RECURSIVE MulD(_, _, _)
\* a * s + carry, for a small s
MulD(a, s, carry) == IF a = <<>> THEN <<>> ELSE LET v == a[1] * s + carry IN <<v % Base>> \o MulD(Tail(a), s, v \div Base)
Times(a, s) == MulD(a, s, 0)
Plus(a, n) == MulD(a, 1, n)
RECURSIVE SumD(_, _, _)
SumD(a, b, carry) == IF a = <<>> THEN <<>> ELSE LET v == a[1] + b[1] + carry IN <<v % Base>> \o SumD(Tail(a), Tail(b), v \div Base)
Sum(a, b) == SumD(a, b, 0)
RECURSIVE MinusD(_, _, _)
MinusD(a, b, borrow) == IF a = <<>> THEN <<>> ELSE LET v == a[1] - b[1] - borrow IN <<IF v < 0 THEN v + Base ELSE v>> \o MinusD(Tail(a), Tail(b), IF v < 0 THEN 1 ELSE 0)
Minus(a, b) == MinusD(a, b, 0)
RECURSIVE Less(_, _)
\* the highest digit in which they differ decides
Less(a, b) == IF a = <<>> THEN FALSE ELSE LET n == Len(a) IN IF a[n] # b[n] THEN a[n] < b[n] ELSE Less(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1))
AtMost(a, b) == a = b \/ Less(a, b)
RECURSIVE Val(_)
\* the number itself, where TLC can hold it
Val(a) == IF a = <<>> THEN 0 ELSE a[1] + Base * Val(Tail(a))
=============================================================================
