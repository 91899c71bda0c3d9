------------------------------ MODULE MCHamt ------------------------------
(* Bounded instances of Hamt, for every hash assignment over a small       *)
(* alphabet that tells the keys apart within NDigits digits.  Keys are     *)
(* interchangeable, so only assignments in which they are sorted by their  *)
(* digits are taken.                                                       *)
EXTENDS Hamt
CONSTANTS NDigits, JunkAll
Words == [1..NDigits -> 0..W-1]

\* one word after another: the product of all of them would be too large
RECURSIVE Assign(_)
Assign(n) == IF n = 0 THEN {<< >>}
             ELSE UNION {{Append(s, w) : w \in {w \in Words : n = 1 \/ LexLess(s[n - 1], w, 1)}}
                            : s \in Assign(n - 1)}
Assignments == Assign(Cardinality(Keys))
JunkDef == [k \in Keys |-> IF JunkAll THEN 0..W-1 ELSE {}]
MCInit == InitState /\ hash \in Assignments
MCSpec == MCInit /\ [][Next]_vars
View == state
==========================================================================
