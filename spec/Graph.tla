------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* Prints the complete transition graph of a bounded instance of Amt: one  *)
(* line per transition, with the call, its arguments and its result.  The  *)
(* harness walks this graph on the real containers.                        *)
(* Dep is left out: its result depends on the hash assignment, and is      *)
(* tabulated per assignment and key set by DepTab.                         *)
(***************************************************************************)
EXTENDS Amt, Json
CONSTANT StartNil
GInit == InitState /\ hash = 0 /\ (IF StartNil THEN InitNil ELSE InitOne)
GSpec == GInit /\ [][Next]_vars

Pres(hd, d) == [h \in Handles |-> IF hd[h] = 0 THEN {} ELSE DOMAIN d[hd[h]]]

\* A state up to the names of cells and roots: roots are named after the
\* least handle that refers to them, cells after the entry they belong to.
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RootName(hd, r) == LET hs == {h \in Handles : hd[h] = r} IN
                   IF r = 0 \/ hs = {} THEN 0 ELSE MinOf(hs)
LiveRoots(hd, fs) == UsedRoots(hd, fs)
CellName(hd, d, v, p, fs, c) ==
    IF c = 0 THEN << >>
    ELSE LET at == {rk \in LiveRoots(hd, fs) \X Keys :
                       rk[2] \in DOMAIN d[rk[1]] /\ d[rk[1]][rk[2]] = c}
         IN IF at # {} THEN LET x == CHOOSE x \in at : TRUE IN <<RootName(hd, x[1]), x[2]>>
            ELSE <<v[c], {q \in PtrNames : p[q] = c}, {j \in DOMAIN fs : fs[j].c = c}>>
FrameRoots(fs, r) == {j \in DOMAIN fs : fs[j].r = r}
Canon(hd, d, v, p, fs) ==
    <<[h \in Handles |-> RootName(hd, hd[h])],
      {<<RootName(hd, r), FrameRoots(fs, r), [k \in DOMAIN d[r] |-> v[d[r][k]]]>> : r \in LiveRoots(hd, fs)},
      [q \in PtrNames |-> CellName(hd, d, v, p, fs, p[q])],
      [j \in DOMAIN fs |-> <<fs[j].op, fs[j].k, fs[j].ex, CellName(hd, d, v, p, fs, fs[j].c), fs[j].st, fs[j].todo>>]>>

GView == Canon(handle, dict, val, ptr, frames)
Sid == ToString(GView)
Edge == PrintT("E " \o ToJson([s |-> Sid, t |-> Sid', p |-> Pres(handle', dict'), r |-> reply']))
First == TLCGet("level") > 1 \/ PrintT("I " \o ToJson([s |-> Sid, p |-> Pres(handle, dict)]))
=============================================================================
