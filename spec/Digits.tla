------------------------------ MODULE Digits ------------------------------
(***************************************************************************)
(* Hash digits.  A hash assignment H maps every key to the sequence of     *)
(* 4-bit digits that its successive 64-bit hashes provide, lowest digit    *)
(* first: digits 1..16 come from the initial hash, 17..32 from the first   *)
(* rehash, and so on.  Everything the documentation promises about depth   *)
(* and canonical structure is a function of H and the set of keys present. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

\* Number of leading digits two sequences share.
\* (Bound names here must not be those of variables of modules that use this
\* one, as i in Trace: TLC would not compute constants from it once.)
LcpSeq(s, t) ==
    LET L == Min2(Len(s), Len(t))
        D == {x \in 1..L : s[x] # t[x]}
    IN  IF D = {} THEN L ELSE (CHOOSE m \in D : \A x \in D : m <= x) - 1
Lcp(H, j, k) == LcpSeq(H[j], H[k])

SetMax(S) == CHOOSE m \in S : \A x \in S : x <= m

\* Depth of the entry for k when exactly the keys in S are present.
Depth(H, S, k) ==
    IF S \ {k} = {} THEN 0 ELSE SetMax({Lcp(H, j, k) : j \in S \ {k}})

RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})

\* Sum of the depths of all entries: Dep() is DepSum / Cardinality.
DepSum(H, S) == SumOver([k \in S |-> Depth(H, S, k)], S)

\* Canonical iteration order: keys in lexicographic order of their digits.
RECURSIVE LexLess(_, _, _)
LexLess(s, t, i) ==
    IF i > Len(t) THEN FALSE
    ELSE IF i > Len(s) THEN TRUE
    ELSE IF s[i] = t[i] THEN LexLess(s, t, i + 1) ELSE s[i] < t[i]

RECURSIVE CanonOrder(_, _)
CanonOrder(H, S) ==
    IF S = {} THEN << >>
    ELSE LET m == CHOOSE m \in S : \A x \in S \ {m} : LexLess(H[m], H[x], 1)
         IN  <<m>> \o CanonOrder(H, S \ {m})

\* Distinct keys must eventually be told apart.
Distinguishes(H) == \A j, k \in DOMAIN H : j # k => H[j] # H[k]
=============================================================================
