------------------------------- MODULE Crowd -------------------------------
(***************************************************************************)
(* The crowd: keys added and deleted many at a time.                       *)
(*                                                                         *)
(* Member j (0..size-1) has the digits of a prefix, shared by all members  *)
(* and by no other key, followed by its number in base B with m digits,    *)
(* highest first.  The members present are the multiples of a stride       *)
(* t * B^e, t < B a divisor of B; size is a multiple of B^(e+1).  Then     *)
(* every member has a nearest relative that differs in the digit of weight *)
(* B^e, the e digits below it being 0, and so all members are equally deep.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* A forked crowd (fork > 0): members 2j and 2j+1 have the number j, then   *)
(* fork - 1 digits in common, and a last one that tells them apart.  The    *)
(* members present are all, or the multiples of twice such a stride.        *)

RECURSIVE LogB(_, _)
LogB(s, B) == IF s < B THEN 0 ELSE 1 + LogB(s \div B, B)

\* The depth of every member present.
CrowdDepth(pre, m, stride, B, fork) ==
    IF fork = 0 THEN pre + m - 1 - LogB(stride, B)
    ELSE IF stride = 1 THEN pre + m + fork - 1
    ELSE pre + m - 1 - LogB(stride \div 2, B)

----------------------------------------------------------------------------
(***************************************************************************)
(* Mean depth under hashing that is as good as random (C21).               *)
(*                                                                         *)
(* Of n keys, one shares d digits with another with probability            *)
(* 1 - (1 - 16^-d)^(n-1); summed over d this is between log16(n) - 0.33    *)
(* and log16(n) - 0.25 for the n in question, with a standard deviation of *)
(* the mean below 0.03 from 500 keys on.  Allowed is log16(n) - 0.6 to     *)
(* log16(n) + 0.1, to be reckoned in tenths.                               *)
(***************************************************************************)
\* 16^(j/10), rounded up, for j = 0, 1, 2, ...
Power16 == <<1, 2, 2, 3, 4, 4, 6, 7, 10, 13, 16, 22, 28, 37, 49, 64, 85, 112, 148, 195, 256, 338, 446, 589, 777, 1024,
             1352, 1783, 2353, 3105, 4096, 5405, 7132, 9411, 12417, 16384, 21619, 28527, 37641, 49668, 65536, 86476,
             114105, 150563, 198669, 262144, 345902, 456420, 602249, 794673, 1048576, 1383605>>
Log16Tenths(n) == Cardinality({j \in DOMAIN Power16 : Power16[j] <= n}) - 1
Logarithmic(sum, n) ==
    n >= 500 => LET j == Log16Tenths(n) IN 10 * sum <= (j + 1) * n /\ 10 * sum >= (j - 6) * n

----------------------------------------------------------------------------
(***************************************************************************)
(* Places (C23).  A branch below the root has an array with a place for    *)
(* every child, in blocks of K; the root's array is part of the root.      *)
(***************************************************************************)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Up(a, b) == (a + b - 1) \div b
Room(children, K) == K * Up(children, K)

\* Branches at each level of the number, and the places of those of one level;
\* those of the last level with branches have B \div t children each.
Nodes(m, size, B, L) == Up(size, Pow(B, m - L))
RECURSIVE Levels(_, _, _, _, _, _)
Levels(m, size, B, K, L, top) ==
    IF L >= top THEN 0
    ELSE LET a == Nodes(m, size, B, L)
             last == Nodes(m, size, B, L + 1) - (a - 1) * B
         IN  (a - 1) * Room(B, K) + Room(last, K) + Levels(m, size, B, K, L + 1, top)
Slots1(pre, m, size, stride, B, K) ==
    LET top == m - 1 - LogB(stride, B)
    IN  (pre - 1) * K + Levels(m, size, B, K, 0, top)
        + Nodes(m, size, B, top) * Room(B \div (stride \div Pow(B, LogB(stride, B))), K)
\* All places but the root's, of a crowd with a prefix of pre > 0 digits.
CrowdSlots(pre, m, size, stride, B, K, fork) ==
    IF fork = 0 THEN Slots1(pre, m, size, stride, B, K)
    ELSE IF stride = 1 THEN Slots1(pre, m, size \div 2, 1, B, K) + (size \div 2) * fork * K
    ELSE Slots1(pre, m, size \div 2, stride \div 2, B, K)

\* The same for n keys under hashing that is as good as random: expected values,
\* computed and compared with simulations by tools/slots.py.
ExpSlots ==
    16 :> 19 @@ 24 :> 34 @@ 32 :> 48 @@ 34 :> 52 @@ 48 :> 76 @@ 64 :> 105 @@ 68 :> 112 @@ 96 :> 164 @@ 128 :> 225
    @@ 136 :> 241 @@ 192 :> 356 @@ 256 :> 491 @@ 272 :> 525 @@ 384 :> 760 @@ 512 :> 1013 @@ 544 :> 1074 @@ 768 :>
    1476 @@ 1024 :> 1933 @@ 1088 :> 2049 @@ 1536 :> 2881 @@ 2048 :> 3864 @@ 2176 :> 4115 @@ 3072 :> 5949 @@ 4096
    :> 8116 @@ 4352 :> 8659 @@ 6144 :> 12413 @@ 8704 :> 17428 @@ 12288 :> 23871 @@ 17408 :> 33044 @@ 34816 :>
    66104 @@ 69632 :> 138792

----------------------------------------------------------------------------
(* Checked for small bases: the closed forms are the definitions. *)

DigitAt(j, B, m, i) == (j \div Pow(B, m - i)) % B         \* i in 1..m, highest first
Share(a, b, B, m) ==                                       \* leading digits in common
    LET D == {i \in 1..m : DigitAt(a, B, m, i) # DigitAt(b, B, m, i)}
    IN  IF D = {} THEN m ELSE (CHOOSE i \in D : \A x \in D : i <= x) - 1
SlowDepth(S, j, B, m) ==
    LET L == {Share(j, x, B, m) : x \in S \ {j}} IN CHOOSE l \in L : \A x \in L : x <= l

CrowdOk(B, m, size, e, t) ==
    LET S == {j \in 0..(size - 1) : j % (t * Pow(B, e)) = 0}
    IN  \A j \in S : SlowDepth(S, j, B, m) = CrowdDepth(0, m, t * Pow(B, e), B, 0)

\* The digits of members of a forked crowd.
ForkDigits(j, B, m, f) == [i \in 1..(m + f) |-> IF i <= m THEN DigitAt(j \div 2, B, m, i)
                                               ELSE IF i < m + f THEN 0 ELSE j % 2]
ForkShare(a, b, B, m, f) ==
    LET D == {i \in 1..(m + f) : ForkDigits(a, B, m, f)[i] # ForkDigits(b, B, m, f)[i]}
    IN  (CHOOSE i \in D : \A x \in D : i <= x) - 1
ForkOk(B, m, size, stride, f) ==
    LET S == {j \in 0..(size - 1) : j % stride = 0}
    IN  \A j \in S : LET L == {ForkShare(j, x, B, m, f) : x \in S \ {j}}
                     IN  (CHOOSE l \in L : \A x \in L : x <= l) = CrowdDepth(0, m, stride, B, f)

\* The places of a set of digit sequences, below the root.
SlowSlots(T, len, K) ==
    LET Heads(d) == {SubSeq(x, 1, d) : x \in T}
        Below(p) == {x \in T : SubSeq(x, 1, Len(p)) = p}
        Bs == UNION {{p \in Heads(d) : Cardinality(Below(p)) > 1} : d \in 1..(len - 1)}
        n(p) == Room(Cardinality({x[Len(p) + 1] : x \in Below(p)}), K)
        RECURSIVE Sum(_)
        Sum(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE q \in S : TRUE IN n(p) + Sum(S \ {p})
    IN  Sum(Bs)
\* A forked or plain crowd with a prefix of two digits.
SlotsOk(B, m, size, stride, f) ==
    LET D(j) == <<0, 0>> \o IF f > 0 THEN ForkDigits(j, B, m, f) ELSE [i \in 1..m |-> DigitAt(j, B, m, i)]
    IN  SlowSlots({D(j) : j \in {j \in 0..(size - 1) : j % stride = 0}}, 2 + m + f, 2)
            = CrowdSlots(2, m, size, stride, B, 2, f)

CrowdChecked ==
    /\ \A stride \in {1, 2} : \A size \in {4, 12, 48, 64} : SlotsOk(4, 3, size, stride, 0)
    /\ \A stride \in {4, 8} : \A size \in {16, 32, 48, 64} : SlotsOk(4, 3, size, stride, 0)
    /\ \A f \in {1, 2, 4} : \A stride \in {1, 2, 4} : \A size \in {8, 24, 32} : SlotsOk(4, 2, size, stride, f)
    /\ \A f \in {1, 3} : \A stride \in {8, 16} : \A size \in {32, 64} : SlotsOk(4, 3, size, stride, f)
    /\ \A f \in {1, 2, 4} : \A stride \in {1, 2, 4} : \A size \in {8, 24, 32} : ForkOk(4, 2, size, stride, f)
    /\ \A f \in {1, 3} : \A stride \in {8, 16} : \A size \in {32, 64} : ForkOk(4, 3, size, stride, f)
    /\ \A t \in {1, 2} : \A size \in {4, 12, 48, 64} : CrowdOk(4, 3, size, 0, t)
    /\ \A t \in {1, 2} : \A size \in {16, 32, 48, 64} : CrowdOk(4, 3, size, 1, t)
    /\ \A t \in {1, 2} : CrowdOk(4, 3, 64, 2, t)
    /\ \A t \in {1, 2, 4, 8} : CrowdOk(16, 2, 48, 0, t)
    /\ \A size \in {4, 6, 10} : CrowdOk(2, 4, size, 0, 1)
    \* the table: 16 = (16^(1/10))^10
    /\ \A j \in 1..(Len(Power16) - 10) : Power16[j + 10] \in (16 * (Power16[j] - 1))..(16 * Power16[j])
    /\ Log16Tenths(16) = 10 /\ Log16Tenths(4095) = 29 /\ Log16Tenths(4096) = 30
=============================================================================
