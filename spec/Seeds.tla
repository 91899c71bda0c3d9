------------------------------- MODULE Seeds -------------------------------
(***************************************************************************)
(* Seeds and layouts (C22, C05).  A constructor takes a seed from a source *)
(* that never repeats one; a container hashes with its seed alone, so the  *)
(* layout of its entries is a function of (seed, keys), and the hash being *)
(* taken for perfect it is identified with that pair.  What clients see is *)
(* the order of visits: seen holds every visit made.                       *)
(*                                                                         *)
(* Dev: OneSeed (the seed is taken when the program starts), Reuse (a      *)
(* dropped container's seed is used again), PerCall (a fresh seed for      *)
(* every visit), FirstKeys (the seed depends on the first key).            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Handles, Keys, MaxRoots, Dev
VARIABLES at,     \* handle -> container (0: none)
          seed,   \* container -> seed
          keys,   \* container -> keys present
          used,   \* seeds the source has given
          seen    \* visits: [r |-> container, ks |-> keys, order |-> layout]

vars == <<at, seed, keys, used, seen>>
Roots == 1..MaxRoots
Live == {at[h] : h \in Handles} \ {0}
Made == {r \in Roots : seed[r] # 0}

Init == /\ at = [h \in Handles |-> 0] /\ seed = [r \in Roots |-> 0]
        /\ keys = [r \in Roots |-> {}] /\ used = 0 /\ seen = {}

Seed == CASE Dev = "OneSeed" -> 1
          [] Dev = "Reuse" /\ Made \ Live # {} -> seed[CHOOSE r \in Made \ Live : TRUE]
          [] OTHER -> used + 1

New(h) == \E r \in Roots \ Made :
    /\ \A x \in Roots \ Made : r <= x
    /\ at' = [at EXCEPT ![h] = r]
    /\ seed' = [seed EXCEPT ![r] = Seed]
    /\ used' = used + 1
    /\ UNCHANGED <<keys, seen>>
Copy(h, g) == at' = [at EXCEPT ![g] = at[h]] /\ UNCHANGED <<seed, keys, used, seen>>
Add(h, k) ==
    /\ at[h] # 0
    /\ keys' = [keys EXCEPT ![at[h]] = @ \cup {k}]
    /\ seed' = IF Dev = "FirstKeys" /\ keys[at[h]] = {} THEN [seed EXCEPT ![at[h]] = k] ELSE seed
    /\ UNCHANGED <<at, used, seen>>
Del(h, k) == at[h] # 0 /\ keys' = [keys EXCEPT ![at[h]] = @ \ {k}] /\ UNCHANGED <<at, seed, used, seen>>
Visit(h) ==
    /\ at[h] # 0 /\ keys[at[h]] # {}
    /\ used' = IF Dev = "PerCall" THEN used + 1 ELSE used
    /\ seen' = seen \cup {[r |-> at[h], ks |-> keys[at[h]],
                           order |-> <<IF Dev = "PerCall" THEN used + 1 ELSE seed[at[h]], keys[at[h]]>>]}
    /\ UNCHANGED <<at, seed, keys>>

Next == \/ \E h \in Handles : New(h) \/ Visit(h) \/ (\E g \in Handles : Copy(h, g)) \/ (\E k \in Keys : Add(h, k) \/ Del(h, k))
Spec == Init /\ [][Next]_vars

\* C22: different containers show the same keys in different orders.
OwnOrder == \A v, w \in seen : v.r # w.r => v.order # w.order
\* C05: one container shows the same keys in the same order, whatever happened.
OneOrder == \A v, w \in seen : v.r = w.r /\ v.ks = w.ks => v.order = w.order
\* Visits are about pairs.
Few == Cardinality(seen) <= 2 /\ used <= 6
=============================================================================
