------------------------------ MODULE MCAmt ------------------------------
(* Bounded instances of Amt for exhaustive checking. *)
EXTENDS Amt
CONSTANT StartNil
HashSmall == [k \in Keys |-> <<k % 2, (k \div 2) % 2, k>>]
MCInit == InitState /\ hash = HashSmall /\ (IF StartNil THEN InitNil ELSE InitOne)
MCSpec == MCInit /\ [][Next]_vars
View == state
==========================================================================
