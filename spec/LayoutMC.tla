------------------------------ MODULE LayoutMC ------------------------------
(* Bounds for checking Layout: basic types, one enumeration narrower than its type, a few widths.       *)
EXTENDS Layout
DE == [En |-> [type |-> "i8", width |-> 5], Ef |-> [type |-> "u8", width |-> 0]]
=============================================================================
