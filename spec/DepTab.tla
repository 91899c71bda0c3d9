------------------------------- MODULE DepTab -------------------------------
(* The depth sum of every set of keys under every given hash assignment.   *)
EXTENDS Digits, TLC, Json, IOUtils
Profiles == JsonDeserialize(IOEnv.PROFILES)
NP == Len(Profiles)
LcpTab == TLCEval([j \in 1..NP |-> TLCEval([a \in 1..Profiles[j].n |-> TLCEval([b \in 1..Profiles[j].n |->
            IF a = b THEN 0 ELSE Profiles[j].pre + LcpSeq(Profiles[j].digits[a], Profiles[j].digits[b])])])])
TabLcp(H, a, b) == LcpTab[H][a][b]
RECURSIVE Bits(_, _)
Bits(m, k) == IF m = 0 THEN {} ELSE (IF m % 2 = 1 THEN {k} ELSE {}) \cup Bits(m \div 2, k + 1)
Table == [j \in 1..NP |-> [name |-> Profiles[j].name,
            sums |-> [m \in 1..(2^(Profiles[j].n) - 1) |-> DepSum(j, Bits(m, 1))]]]
ASSUME JsonSerialize(IOEnv.OUT, Table)
=============================================================================
