------------------------------ MODULE Readers ------------------------------
(***************************************************************************)
(* Several processes read one container at the same time (C14).            *)
(*                                                                         *)
(* The container is a trie; a lookup walks from the root to the entry one  *)
(* memory access at a time, an iteration visits every node and entry, and  *)
(* between any two accesses of one process the others may make theirs.     *)
(* Between two reading phases, when no call is in progress, a writer may   *)
(* change the container.  acc holds every access since the last such quiet *)
(* moment: nothing orders the accesses of different readers, so any two    *)
(* conflicting ones are a data race.                                       *)
(*                                                                         *)
(* Dev names a mistake to make:                                            *)
(*   Memo      lookups remember the last entry found in the container      *)
(*   LazyDep   Dep is computed when asked for and kept                     *)
(*   LazyTidy  a lookup that meets a node left by a deletion removes it    *)
(*   SharedBuf rehashing uses one buffer for all callers                   *)
(*   CopyFirst a lookup copies the value of an entry before comparing keys *)
(*                                                                         *)
(* Values are variables of their own: a process may update, through a      *)
(* pointer, the value of a key that only it reads while others read other  *)
(* values.                                                                 *)
(***************************************************************************)
EXTENDS Digits, TLC

CONSTANTS Procs, Keys, Digs,   \* Digs[k]: the digits of key k
          Chunk, MaxLen,       \* digits per hash, digits in all
          Dev

VARIABLES dict,    \* the keys present
          fresh,   \* LazyDep: is the kept depth up to date
          left,    \* LazyTidy: a prefix whose node is left over, or none
          memo,    \* Memo: the key remembered, 0: none
          memoOk,  \* Memo: what was found for it (written second)
          buf,     \* SharedBuf: the key whose hash is in the buffer
          pc, op, key, pos, seen, res,   \* per process
          asked, poked, \* per process: keys whose value it asks for, updates, since the last quiet moment
          acc      \* accesses <<process, location, "r" or "w">>

vars == <<dict, fresh, left, memo, memoOk, buf, pc, op, key, pos, seen, res, asked, poked, acc>>

None == <<-1>>
LcpOf(a, b) == LcpSeq(Digs[a], Digs[b])
Dep0(S, k) == IF S \ {k} = {} THEN 0 ELSE CHOOSE d \in {LcpOf(k, j) : j \in S \ {k}} :
                                            \A j \in S \ {k} : LcpOf(k, j) <= d
RECURSIVE SumDep(_, _)
SumDep(S, T) == IF T = {} THEN 0 ELSE LET k == CHOOSE x \in T : TRUE IN Dep0(S, k) + SumDep(S, T \ {k})

Prefix(k, n) == SubSeq(Digs[k], 1, n)
\* The nodes: the root, and every prefix two keys share.
NodesOf(S) ==
    LET prefixes == UNION {{Prefix(k, n) : n \in 1..MaxLen} : k \in S}
    IN  {<< >>} \cup {p \in prefixes : Cardinality({k \in S : Prefix(k, Len(p)) = p}) >= 2}
Nodes(S) == NodesOf(S) \cup (IF left = None THEN {} ELSE {left})

Lookups == {"Get", "Poke"}
\* The keys whose value a call asks for.  Callers see to it that nobody else
\* asks for a value that is being updated; an iteration need not load values.
Asks(o, k) == IF o \in Lookups THEN {k} ELSE {}

\* What a call returns alone.
Alone(o, k) == CASE o \in Lookups -> IF k \in dict THEN 1 ELSE 0
                 [] o = "Len" -> Cardinality(dict)
                 [] o = "Dep" -> SumDep(dict, dict)
                 [] o = "All" -> Cardinality(dict)

Init ==
    /\ dict \in SUBSET Keys
    /\ fresh = FALSE /\ left = None /\ memo = 0 /\ memoOk = 0 /\ buf = 0
    /\ pc = [p \in Procs |-> "idle"]
    /\ op = [p \in Procs |-> ""] /\ key = [p \in Procs |-> 0]
    /\ pos = [p \in Procs |-> 0] /\ seen = [p \in Procs |-> {}]
    /\ res = [p \in Procs |-> -1]
    /\ asked = [p \in Procs |-> {}] /\ poked = [p \in Procs |-> {}]
    /\ acc = {}

Quiet == \A p \in Procs : pc[p] = "idle"

Settle == acc' = {} /\ asked' = [p \in Procs |-> {}] /\ poked' = [p \in Procs |-> {}]
\* A writer, when nobody reads.
Write(k) ==
    /\ Quiet
    /\ dict' = IF k \in dict THEN dict \ {k} ELSE dict \cup {k}
    /\ fresh' = FALSE /\ memo' = 0 /\ memoOk' = 0 /\ buf' = 0 /\ Settle
    /\ left' = IF Dev # "LazyTidy" \/ k \notin dict THEN None
               ELSE LET gone == NodesOf(dict) \ NodesOf(dict \ {k}) IN
                    IF gone = {} THEN None ELSE CHOOSE q \in gone : TRUE
    /\ UNCHANGED <<pc, op, key, pos, seen, res>>

\* One call for each process between two quiet moments: a race needs no more.
Begin(p, o, k) ==
    /\ pc[p] = "idle"
    /\ \A a \in acc : a[1] # p
    /\ \A q \in Procs \ {p} : poked[q] \cap Asks(o, k) = {}
    /\ o = "Poke" => \A q \in Procs \ {p} : k \notin asked[q]
    /\ asked' = [asked EXCEPT ![p] = Asks(o, k)]
    /\ poked' = [poked EXCEPT ![p] = IF o = "Poke" THEN {k} ELSE {}]
    /\ pc' = [pc EXCEPT ![p] = IF o \in Lookups /\ Dev = "Memo" THEN "memo" ELSE "node"]
    /\ op' = [op EXCEPT ![p] = o] /\ key' = [key EXCEPT ![p] = k]
    /\ pos' = [pos EXCEPT ![p] = 0] /\ seen' = [seen EXCEPT ![p] = {}]
    /\ res' = [res EXCEPT ![p] = -1]
    /\ UNCHANGED <<dict, fresh, left, memo, memoOk, buf, acc>>

Touch(p, loc, rw) == acc' = acc \cup {<<p, loc, rw>>} /\ UNCHANGED <<asked, poked>>
Go(p, to) == pc' = [pc EXCEPT ![p] = to]
Ret(p, r) == pc' = [pc EXCEPT ![p] = "done"] /\ res' = [res EXCEPT ![p] = r]


\* Lookup: read the node at the current depth, then the next, or an entry.
GetStep(p) ==
    LET k == key[p]
        at == Prefix(k, pos[p])
        below == {j \in dict : Prefix(j, pos[p] + 1) = Prefix(k, pos[p] + 1)}
    IN
    /\ op[p] \in Lookups /\ pc[p] = "node"
    /\ Touch(p, <<"node", at>>, "r")
    /\ IF pos[p] + 1 <= MaxLen /\ Prefix(k, pos[p] + 1) \in Nodes(dict)
       THEN /\ pos' = [pos EXCEPT ![p] = @ + 1]
            /\ IF (pos[p] + 1) % Chunk = 0 /\ Dev = "SharedBuf" THEN Go(p, "fill")
               ELSE IF Prefix(k, pos[p] + 1) = left THEN Go(p, "tidy") ELSE Go(p, "node")
            /\ UNCHANGED <<res, seen>>
       ELSE IF below = {}
            THEN Ret(p, 0) /\ UNCHANGED <<pos, seen>>
            ELSE /\ seen' = [seen EXCEPT ![p] = below]
                 /\ Go(p, "leaf") /\ UNCHANGED <<pos, res>>
    /\ UNCHANGED <<dict, fresh, left, memo, memoOk, buf, op, key>>

Found(p, r) == IF Dev = "Memo" THEN Go(p, "keep") /\ UNCHANGED res ELSE Ret(p, r)
GetLeaf(p) ==
    LET j == CHOOSE j \in seen[p] : TRUE IN
    /\ op[p] \in Lookups /\ pc[p] = "leaf"
    /\ Touch(p, <<"leaf", j>>, "r")
    /\ IF j = key[p] \/ (Dev = "CopyFirst" /\ op[p] = "Get") THEN Go(p, "value") /\ UNCHANGED res
       ELSE Found(p, 0)
    /\ UNCHANGED <<dict, fresh, left, memo, memoOk, buf, op, key, pos, seen>>
\* The value: read, or updated through the pointer.
GetValue(p) ==
    LET j == CHOOSE j \in seen[p] : TRUE IN
    /\ op[p] \in Lookups /\ pc[p] = "value"
    /\ Touch(p, <<"value", j>>, IF op[p] = "Poke" THEN "w" ELSE "r")
    /\ Found(p, IF j = key[p] THEN 1 ELSE 0)
    /\ UNCHANGED <<dict, fresh, left, memo, memoOk, buf, op, key, pos, seen>>

\* The mistakes.
MemoRead(p) ==
    /\ pc[p] = "memo"
    /\ Touch(p, <<"memo">>, "r")
    /\ IF memo = key[p] THEN Ret(p, memoOk) ELSE Go(p, "node") /\ UNCHANGED res
    /\ UNCHANGED <<dict, fresh, left, memo, memoOk, buf, op, key, pos, seen>>
MemoKeep(p) ==
    /\ pc[p] \in {"keep", "keep2"}
    /\ Touch(p, <<"memo">>, "w")
    /\ IF pc[p] = "keep" THEN memo' = key[p] /\ Go(p, "keep2") /\ UNCHANGED <<memoOk, res>>
       ELSE LET r == IF key[p] \in seen[p] THEN 1 ELSE 0 IN memoOk' = r /\ Ret(p, r) /\ UNCHANGED memo
    /\ UNCHANGED <<dict, fresh, left, buf, op, key, pos, seen>>
Tidy(p) ==
    /\ pc[p] = "tidy"
    /\ Touch(p, <<"node", Prefix(key[p], pos[p] - 1)>>, "w")
    /\ left' = None /\ Go(p, "node") /\ pos' = [pos EXCEPT ![p] = @ - 1]
    /\ UNCHANGED <<dict, fresh, memo, memoOk, buf, op, key, seen, res>>
Fill(p) ==
    /\ pc[p] = "fill"
    /\ Touch(p, <<"buf">>, "w") /\ buf' = key[p] /\ Go(p, "use")
    /\ UNCHANGED <<dict, fresh, left, memo, memoOk, op, key, pos, seen, res>>
Use(p) ==   \* go on with whatever hash is in the buffer now
    /\ pc[p] = "use"
    /\ Touch(p, <<"buf">>, "r")
    /\ IF buf = key[p] THEN Go(p, "node") /\ UNCHANGED res ELSE Ret(p, 0)
    /\ UNCHANGED <<dict, fresh, left, memo, memoOk, buf, op, key, pos, seen>>

LenStep(p) ==
    /\ op[p] = "Len" /\ pc[p] = "node"
    /\ Touch(p, <<"len">>, "r") /\ Ret(p, Cardinality(dict))
    /\ UNCHANGED <<dict, fresh, left, memo, memoOk, buf, op, key, pos, seen>>
DepStep(p) ==
    /\ op[p] = "Dep" /\ pc[p] = "node"
    /\ Touch(p, <<"dep">>, IF Dev = "LazyDep" /\ ~fresh THEN "w" ELSE "r")
    /\ fresh' = TRUE /\ Ret(p, SumDep(dict, dict))
    /\ UNCHANGED <<dict, left, memo, memoOk, buf, op, key, pos, seen>>

\* Iteration: some place not seen yet; the order does not matter here.
AllStep(p) ==
    LET places == {<<"node", q>> : q \in Nodes(dict)} \cup {<<"leaf", k>> : k \in dict}
        todo == places \ seen[p]
    IN
    /\ op[p] = "All" /\ pc[p] = "node"
    /\ IF todo = {}
       THEN Ret(p, Cardinality({x \in seen[p] : x[1] = "leaf"})) /\ UNCHANGED <<seen, acc, asked, poked>>
       ELSE LET x == CHOOSE x \in todo : TRUE IN
            Touch(p, x, "r") /\ seen' = [seen EXCEPT ![p] = @ \cup {x}] /\ UNCHANGED <<pc, res>>
    /\ UNCHANGED <<dict, fresh, left, memo, memoOk, buf, op, key, pos>>

End(p) ==
    /\ pc[p] = "done"
    /\ pc' = [pc EXCEPT ![p] = "idle"]
    /\ op' = [op EXCEPT ![p] = ""] /\ key' = [key EXCEPT ![p] = 0]
    /\ pos' = [pos EXCEPT ![p] = 0] /\ seen' = [seen EXCEPT ![p] = {}]
    /\ res' = [res EXCEPT ![p] = -1]
    /\ UNCHANGED <<dict, fresh, left, memo, memoOk, buf, acc, asked, poked>>

\* A quiet moment orders everything before it and after it.
Join == Quiet /\ acc # {} /\ Settle /\ UNCHANGED <<dict, fresh, left, memo, memoOk, buf, pc, op, key, pos, seen, res>>

Step(p) == \/ \E k \in Keys, o \in Lookups : Begin(p, o, k)
           \/ \E o \in {"Len", "Dep", "All"} : Begin(p, o, 0)
           \/ GetStep(p) \/ GetLeaf(p) \/ GetValue(p) \/ MemoRead(p) \/ MemoKeep(p) \/ Tidy(p) \/ Fill(p) \/ Use(p)
           \/ LenStep(p) \/ DepStep(p) \/ AllStep(p) \/ End(p)
Next == (\E p \in Procs : Step(p)) \/ (\E k \in Keys : Write(k)) \/ Join
Spec == Init /\ [][Next]_vars

NoRace == \A a, b \in acc : a[1] # b[1] /\ a[2] = b[2] => a[3] = "r" /\ b[3] = "r"
NoWrite == \A a \in acc : a[3] = "r" \/ a[2][1] = "value"
SameAsAlone == \A p \in Procs : pc[p] = "done" => res[p] = Alone(op[p], key[p])
ReadersChangeNothing == [][(\E p \in Procs : pc[p] # pc'[p]) => UNCHANGED <<dict, left, memo, memoOk>>]_vars

Sym == Permutations(Procs)
MCDigs == <<(<<0, 0, 0>>), (<<0, 0, 1>>), (<<0, 1, 0>>), (<<1, 0, 0>>)>>
=============================================================================
