------------------------------ MODULE HashFn ------------------------------
(***************************************************************************)
(* The key helpers as functions (C17).  A key's content is a sequence of   *)
(* bytes; a helper feeds a stream of bytes to a keyed hash.  The hash is   *)
(* taken to be perfect: it is identified with (seed, stream).  Observe     *)
(* adds one observed call to the table; what must hold of the table is     *)
(* stated by Functional and the three Distinct conditions - the same       *)
(* conditions HashTrace puts to calls of the real helpers.                 *)
(*                                                                         *)
(* Dev: Wrap (the rehash count is truncated), SeedLost, Prefix (only the   *)
(* first bytes count), Instance (the memory holding the key counts),       *)
(* Count (the rehash count is ignored), Padded (short keys are padded).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Alphabet, MaxKey, Seeds, MaxIter, Instances, Dev
VARIABLE table     \* set of [c, s, i, x]

Contents == UNION {[1..n -> Alphabet] : n \in 0..MaxKey}

RECURSIVE Rep(_, _)
Rep(c, n) == IF n = 0 THEN << >> ELSE c \o Rep(c, n - 1)

Fed(c) == CASE Dev = "Prefix" -> SubSeq(c, 1, IF Len(c) = 0 THEN 0 ELSE 1)
            [] Dev = "Padded" -> [j \in 1..MaxKey |-> IF j <= Len(c) THEN c[j] ELSE 0]
            [] OTHER -> c
Times(i) == CASE Dev = "Wrap" -> (i % 2) + 1
              [] Dev = "Count" -> 1
              [] OTHER -> i + 1
Hash(c, s, i, inst) == <<IF Dev = "SeedLost" THEN 0 ELSE s, Rep(Fed(c), Times(i)), IF Dev = "Instance" THEN inst ELSE 0>>

Init == table = {}
Observe(c, s, i, inst) == table' = table \cup {[c |-> c, s |-> s, i |-> i, x |-> Hash(c, s, i, inst)]}
Next == \E c \in Contents, s \in Seeds, i \in 0..MaxIter, inst \in Instances : Observe(c, s, i, inst)
Spec == Init /\ [][Next]_table

\* Conditions on a set of observations [c, s, i, x] (x: the hash).
Project(T, F(_)) == Cardinality({F(o) : o \in T})
IsFunction(T) == Cardinality(T) = Project(T, LAMBDA o : <<o.c, o.s, o.i>>)
KeysTold(T)  == Project(T, LAMBDA o : <<o.s, o.i, o.c>>) = Project(T, LAMBDA o : <<o.s, o.i, o.x>>)
SeedsTold(T) == Project(T, LAMBDA o : <<o.c, o.i, o.s>>) = Project(T, LAMBDA o : <<o.c, o.i, o.x>>)
ItersTold(T) == Project(T, LAMBDA o : <<o.c, o.s, o.i>>) = Project(T, LAMBDA o : <<o.c, o.s, o.x>>)
NonEmpty(T, empty) == {o \in T : o.c # empty}

Functional    == IsFunction(table)
DistinctKeys  == KeysTold(NonEmpty(table, << >>))
DistinctSeeds == SeedsTold(NonEmpty(table, << >>))
DistinctIters == ItersTold(NonEmpty(table, << >>))
\* The conditions are about pairs: tables of two entries show every violation.
Few == Cardinality(table) <= 1
=============================================================================
