------------------------------ MODULE FCommon ------------------------------
(* What all abstract specifications share. *)
EXTENDS Integers, Sequences, FiniteSets

OK == 1   ERR == 0   PANIC == 2      \* how a call ended: success, reported failure, panic

(* An element, key or value is <<value, identity>>.  Fresh is the identity of one made by the current
   call: it matches any identity the call was observed to make. *)
Fresh == 0
=============================================================================
