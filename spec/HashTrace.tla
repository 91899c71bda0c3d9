----------------------------- MODULE HashTrace -----------------------------
(***************************************************************************)
(* Calls of the real helpers, judged by the conditions of HashFn.  Each    *)
(* line of TRACE is one helper: obs holds [content, seed, count, hash]     *)
(* (content 0 is the empty key), eq holds [content, content, result of     *)
(* Equal], stuck the calls that did not return.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES i

H == INSTANCE HashFn WITH Alphabet <- {0}, MaxKey <- 0, Seeds <- {0}, MaxIter <- 0, Instances <- {0},
                          Dev <- "None", table <- {}

Tr == ndJsonDeserialize(IOEnv.TRACE)

Obs(e) == {[c |-> e.obs[j][1], s |-> e.obs[j][2], i |-> e.obs[j][3], x |-> e.obs[j][4]] : j \in DOMAIN e.obs}

Bad(e) ==
    LET T == Obs(e)
        U == H!NonEmpty(T, 0)
    IN  (IF H!IsFunction(T) THEN {} ELSE {"function"})
        \cup (IF H!KeysTold(U) THEN {} ELSE {"keys"})
        \cup (IF H!SeedsTold(U) THEN {} ELSE {"seeds"})
        \cup (IF H!ItersTold(U) THEN {} ELSE {"counts"})
        \cup (IF \A j \in DOMAIN e.eq : e.eq[j][3] = (e.eq[j][1] = e.eq[j][2]) THEN {} ELSE {"equal"})
        \cup (IF e.stuck = << >> THEN {} ELSE {"stuck"})

\* Two observations that show it.
Pair(T, P(_, _)) == LET S == {o \in T : \E p \in T : P(o, p)} IN
                    IF S = {} THEN << >> ELSE LET o == CHOOSE o \in S : TRUE IN
                                              <<o, CHOOSE p \in T : P(o, p)>>
Witness(e, b) ==
    LET T == Obs(e) U == H!NonEmpty(T, 0) IN
    CASE b = "function" -> Pair(T, LAMBDA o, p : o.c = p.c /\ o.s = p.s /\ o.i = p.i /\ o.x # p.x)
      [] b = "keys"     -> Pair(U, LAMBDA o, p : o.x = p.x /\ o.s = p.s /\ o.i = p.i /\ o.c # p.c)
      [] b = "seeds"    -> Pair(U, LAMBDA o, p : o.x = p.x /\ o.c = p.c /\ o.i = p.i /\ o.s # p.s)
      [] b = "counts"   -> Pair(U, LAMBDA o, p : o.x = p.x /\ o.c = p.c /\ o.s = p.s /\ o.i # p.i)
      [] b = "equal"    -> LET js == {j \in DOMAIN e.eq : e.eq[j][3] # (e.eq[j][1] = e.eq[j][2])} IN
                           <<e.eq[CHOOSE j \in js : TRUE]>>
      [] OTHER -> e.stuck

Init == i = 0
Next == /\ i < Len(Tr)
        /\ i' = i + 1
        /\ \A b \in Bad(Tr[i + 1]) :
              PrintT("MISMATCH " \o ToJson([i |-> i + 1, helper |-> Tr[i + 1].helper, tag |-> b, ev |-> Witness(Tr[i + 1], b)]))
Spec == Init /\ [][Next]_i
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Tr)))
=============================================================================
