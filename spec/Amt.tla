-------------------------------- MODULE Amt --------------------------------
(***************************************************************************)
(* What a user of package amt sees.  One action per API call; `reply`      *)
(* records the call with its arguments and its result.                     *)
(*                                                                         *)
(*  handle : container values held by the client.  0 is the zero value     *)
(*           (uninitialized); copies of a container share its root.        *)
(*  dict   : per root, the entries present: key -> cell.                   *)
(*  val    : the value stored in each cell.  A cell is an entry's value    *)
(*           location; pointers returned by Ptr, Mod and All designate     *)
(*           cells, and outlive the entry.                                 *)
(*  ptr    : pointers kept by the client (0: none).                        *)
(*  frames : Mod and All calls in progress, innermost last.  Their         *)
(*           callbacks are client code: the client may call back into the  *)
(*           library before it lets the callback return or panic.          *)
(*  hash   : the hash assignment (see Digits); it never changes.           *)
(*                                                                         *)
(* The same machine serves maps and sets (IsSet): a set's cells carry no   *)
(* value and are never pointed to.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Digits

CONSTANTS Keys, Vals, Handles, Roots, PtrNames, Cells,
          IsSet, MaxFrames,
          Normalise    \* keep unused cells and roots at their initial value

VARIABLES handle, dict, val, ptr, frames, hash, reply

vars  == <<handle, dict, val, ptr, frames, hash, reply>>
\* The state proper: reply only reports the last call.
state == <<handle, dict, val, ptr, frames, hash>>

NoEntries == [x \in {} |-> 0]
Range(f) == {f[x] : x \in DOMAIN f}

EntryCells(d) == UNION {Range(d[r]) : r \in Roots}
FrameCells(fs) == {fs[i].c : i \in DOMAIN fs} \ {0}
UsedCells(d, p, fs) == EntryCells(d) \cup (Range(p) \ {0}) \cup FrameCells(fs)
UsedRoots(hd, fs) == (Range(hd) \ {0}) \cup {fs[i].r : i \in DOMAIN fs}

FreshCell == LET u == UsedCells(dict, ptr, frames) IN CHOOSE c \in Cells : c \notin u
FreshRoot == LET u == UsedRoots(handle, frames) IN CHOOSE r \in Roots : r \notin u
HasFreshCell == UsedCells(dict, ptr, frames) # Cells
HasFreshRoot == UsedRoots(handle, frames) # Roots

\* Unreachable cells and roots are garbage: forget what they held.
Clean(v, d, p, fs) ==
    IF Normalise THEN LET u == UsedCells(d, p, fs) IN
                      [c \in Cells |-> IF c \in u THEN v[c] ELSE 0]
    ELSE v
CleanRoots(d, hd, fs) ==
    IF Normalise THEN LET u == UsedRoots(hd, fs) IN
                      [r \in Roots |-> IF r \in u THEN d[r] ELSE NoEntries]
    ELSE d

Top == frames[Len(frames)]
Pop(fs) == SubSeq(fs, 1, Len(fs) - 1)
SetTop(f) == [frames EXCEPT ![Len(frames)] = f]

\* The client is running (not the library between two callbacks of All).
ClientTurn == IF frames = << >> THEN TRUE ELSE Top.st = "in"
\* Structural writes to a container with a Mod or All in progress are
\* outside the contract.
Busy(r) == \E i \in DOMAIN frames : frames[i].r = r
MayWrite(h) == IF handle[h] = 0 THEN TRUE ELSE ~Busy(handle[h])

Present(h) == DOMAIN dict[handle[h]]
CellOf(h, k) == dict[handle[h]][k]

Panics(h, op, k) ==
    /\ reply' = [op |-> op, h |-> h, k |-> k, pan |-> TRUE]
    /\ UNCHANGED state

----------------------------------------------------------------------------
(* Handles *)

New(h) ==
    /\ ClientTurn
    /\ LET hd == [handle EXCEPT ![h] = 0] IN
       /\ UsedRoots(hd, frames) # Roots
       /\ LET r  == CHOOSE r \in Roots : r \notin UsedRoots(hd, frames)
              h2 == [handle EXCEPT ![h] = r]
              d2 == CleanRoots([dict EXCEPT ![r] = NoEntries], h2, frames)
          IN /\ handle' = h2
             /\ dict' = d2
             /\ val' = Clean(val, d2, ptr, frames)
    /\ reply' = [op |-> "New", h |-> h, pan |-> FALSE]
    /\ UNCHANGED <<ptr, frames, hash>>

Copy(h, g) ==
    /\ ClientTurn /\ h # g
    /\ LET h2 == [handle EXCEPT ![g] = handle[h]]
           d2 == CleanRoots(dict, h2, frames)
       IN /\ handle' = h2
          /\ dict' = d2
          /\ val' = Clean(val, d2, ptr, frames)
    /\ reply' = [op |-> "Copy", h |-> h, g |-> g, pan |-> FALSE]
    /\ UNCHANGED <<ptr, frames, hash>>

Drop(h) ==
    /\ ClientTurn
    /\ LET h2 == [handle EXCEPT ![h] = 0]
           d2 == CleanRoots(dict, h2, frames)
       IN /\ handle' = h2
          /\ dict' = d2
          /\ val' = Clean(val, d2, ptr, frames)
    /\ reply' = [op |-> "Drop", h |-> h, pan |-> FALSE]
    /\ UNCHANGED <<ptr, frames, hash>>

----------------------------------------------------------------------------
(* Writes *)

\* Effect of storing v for a key, whether or not it is present.
StoreEntry(h, k, v) ==
    IF k \in Present(h)
    THEN /\ val' = [val EXCEPT ![CellOf(h, k)] = v]
         /\ UNCHANGED dict
    ELSE /\ HasFreshCell
         /\ LET c == FreshCell IN
            /\ dict' = [dict EXCEPT ![handle[h]] = (k :> c) @@ @]
            /\ val' = [val EXCEPT ![c] = v]

Set(h, k, v) ==
    /\ ~IsSet /\ ClientTurn /\ MayWrite(h)
    /\ IF handle[h] = 0 THEN Panics(h, "Set", k)
       ELSE /\ StoreEntry(h, k, v)
            /\ reply' = [op |-> "Set", h |-> h, k |-> k, v |-> v, pan |-> FALSE]
            /\ UNCHANGED <<handle, ptr, frames, hash>>

Add(h, k) ==
    /\ IsSet /\ ClientTurn /\ MayWrite(h)
    /\ IF handle[h] = 0 THEN Panics(h, "Add", k)
       ELSE /\ IF k \in Present(h) THEN UNCHANGED <<dict, val>>
               ELSE StoreEntry(h, k, 0)
            /\ reply' = [op |-> "Add", h |-> h, k |-> k, pan |-> FALSE]
            /\ UNCHANGED <<handle, ptr, frames, hash>>

Del(h, k) ==
    /\ ClientTurn /\ MayWrite(h)
    /\ IF handle[h] = 0 THEN Panics(h, "Del", k)
       ELSE /\ LET r  == handle[h]
                   d2 == [dict EXCEPT ![r] = [x \in DOMAIN @ \ {k} |-> @[x]]]
               IN  /\ dict' = d2
                   /\ val' = Clean(val, d2, ptr, frames)
            /\ reply' = [op |-> "Del", h |-> h, k |-> k, pan |-> FALSE]
            /\ UNCHANGED <<handle, ptr, frames, hash>>

\* A complete Mod whose callback only inspects the value and stores v.
ModA(h, k, v) ==
    /\ ~IsSet /\ ClientTurn /\ MayWrite(h)
    /\ IF handle[h] = 0 THEN Panics(h, "ModA", k)
       ELSE /\ StoreEntry(h, k, v)
            /\ reply' = [op |-> "ModA", h |-> h, k |-> k, v |-> v,
                         ex |-> k \in Present(h),
                         old |-> IF k \in Present(h) THEN val[CellOf(h, k)] ELSE 0,
                         pan |-> FALSE]
            /\ UNCHANGED <<handle, ptr, frames, hash>>

----------------------------------------------------------------------------
(* Lookups *)

GetReply(op, h, k) ==
    reply' = [op |-> op, h |-> h, k |-> k,
              ok |-> k \in Present(h),
              v |-> IF k \in Present(h) THEN val[CellOf(h, k)] ELSE 0,
              pan |-> FALSE]

Get(h, k) ==
    /\ ~IsSet /\ ClientTurn
    /\ IF handle[h] = 0 THEN Panics(h, "Get", k)
       ELSE GetReply("Get", h, k) /\ UNCHANGED state

Ptr(h, k) ==
    /\ ~IsSet /\ ClientTurn
    /\ IF handle[h] = 0 THEN Panics(h, "Ptr", k)
       ELSE GetReply("Ptr", h, k) /\ UNCHANGED state

\* Val is the one lookup defined on the zero value.
Val(h, k) ==
    /\ ~IsSet /\ ClientTurn
    /\ reply' = [op |-> "Val", h |-> h, k |-> k,
                 v |-> IF handle[h] # 0 /\ k \in Present(h)
                       THEN val[CellOf(h, k)] ELSE 0,
                 pan |-> FALSE]
    /\ UNCHANGED state

Has(h, k) ==
    /\ IsSet /\ ClientTurn
    /\ IF handle[h] = 0 THEN Panics(h, "Has", k)
       ELSE /\ reply' = [op |-> "Has", h |-> h, k |-> k,
                         ok |-> k \in Present(h), pan |-> FALSE]
            /\ UNCHANGED state

LenOp(h) ==
    /\ ClientTurn
    /\ reply' = [op |-> "Len", h |-> h,
                 n |-> IF handle[h] = 0 THEN 0 ELSE Cardinality(Present(h)),
                 pan |-> FALSE]
    /\ UNCHANGED state

\* Dep() returns sum / n as a float64, 0 when n = 0.
DepOp(h) ==
    /\ ClientTurn
    /\ reply' = [op |-> "Dep", h |-> h,
                 sum |-> IF handle[h] = 0 THEN 0 ELSE DepSum(hash, Present(h)),
                 n |-> IF handle[h] = 0 THEN 0 ELSE Cardinality(Present(h)),
                 pan |-> FALSE]
    /\ UNCHANGED state

NilOp(h) ==
    /\ ClientTurn
    /\ reply' = [op |-> "Nil", h |-> h, ok |-> handle[h] = 0, pan |-> FALSE]
    /\ UNCHANGED state

Entries(h) == {<<k, val[CellOf(h, k)]>> : k \in Present(h)}

\* A complete iteration whose callback always returns true.
AllA(h) ==
    /\ ClientTurn
    /\ IF handle[h] = 0 THEN Panics(h, "AllA", 0)
       ELSE /\ reply' = [op |-> "AllA", h |-> h, es |-> Entries(h), pan |-> FALSE]
            /\ UNCHANGED state

\* An iteration whose callback returns false on its n-th call (n > 0).  It
\* visits m = min(n, Len) of the entries es, each at most once.
AllN(h, n) ==
    /\ ClientTurn
    /\ IF handle[h] = 0 THEN Panics(h, "AllN", 0)
       ELSE /\ reply' = [op |-> "AllN", h |-> h, lim |-> n,
                         m |-> Min2(n, Cardinality(Present(h))),
                         es |-> Entries(h), pan |-> FALSE]
            /\ UNCHANGED state

\* A complete iteration whose callback stores v through every pointer.
AllW(h, v) ==
    /\ ~IsSet /\ ClientTurn /\ MayWrite(h)
    /\ IF handle[h] = 0 THEN Panics(h, "AllW", 0)
       ELSE /\ reply' = [op |-> "AllW", h |-> h, v |-> v, es |-> Entries(h), pan |-> FALSE]
            /\ val' = [c \in Cells |-> IF c \in Range(dict[handle[h]]) THEN v ELSE val[c]]
            /\ UNCHANGED <<handle, dict, ptr, frames, hash>>

----------------------------------------------------------------------------
(* Pointers kept by the client *)

\* p := m.Ptr(k)
Keep(h, k, p) ==
    /\ ~IsSet /\ ClientTurn
    /\ IF handle[h] = 0 THEN Panics(h, "Keep", k)
       ELSE LET c  == IF k \in Present(h) THEN CellOf(h, k) ELSE 0
                p2 == [ptr EXCEPT ![p] = c]
            IN /\ ptr' = p2
               /\ val' = Clean(val, dict, p2, frames)
               /\ reply' = [op |-> "Keep", h |-> h, k |-> k, p |-> p, ok |-> c # 0, pan |-> FALSE]
               /\ UNCHANGED <<handle, dict, frames, hash>>

\* v := *p
Load(p) ==
    /\ ClientTurn /\ ptr[p] # 0
    /\ reply' = [op |-> "Load", p |-> p, v |-> val[ptr[p]], pan |-> FALSE]
    /\ UNCHANGED state

\* *p = v
Store(p, v) ==
    /\ ClientTurn /\ ptr[p] # 0
    /\ val' = [val EXCEPT ![ptr[p]] = v]
    /\ reply' = [op |-> "Store", p |-> p, v |-> v, pan |-> FALSE]
    /\ UNCHANGED <<handle, dict, ptr, frames, hash>>

\* p := m.Ptr(k) is the same address as the kept pointer q
SamePtr(h, k, p) ==
    /\ ~IsSet /\ ClientTurn /\ handle[h] # 0 /\ k \in Present(h) /\ ptr[p] # 0
    /\ reply' = [op |-> "SamePtr", h |-> h, k |-> k, p |-> p,
                 ok |-> CellOf(h, k) = ptr[p], pan |-> FALSE]
    /\ UNCHANGED state

----------------------------------------------------------------------------
(* Mod with an open callback *)

Frame(o, r, k, ex, c, st, todo) ==
    [op |-> o, r |-> r, k |-> k, ex |-> ex, c |-> c, st |-> st, todo |-> todo]

\* Mod is called and invokes its callback.
ModBegin(h, k) ==
    /\ ~IsSet /\ ClientTurn /\ MayWrite(h) /\ Len(frames) < MaxFrames
    /\ IF handle[h] = 0 THEN Panics(h, "ModBegin", k)
       ELSE LET ex == k \in Present(h) IN
            /\ (IF ex THEN TRUE ELSE HasFreshCell)
            /\ LET c == IF ex THEN CellOf(h, k) ELSE FreshCell IN
               /\ frames' = Append(frames, Frame("mod", handle[h], k, ex, c, "in", {}))
               /\ val' = IF ex THEN val ELSE [val EXCEPT ![c] = 0]
               /\ reply' = [op |-> "ModBegin", h |-> h, k |-> k, ex |-> ex,
                            v |-> IF ex THEN val[c] ELSE 0, pan |-> FALSE]
               /\ UNCHANGED <<handle, dict, ptr, hash>>

\* The innermost callback reads, writes or keeps the pointer it was given.
CbLoad ==
    /\ ~IsSet /\ frames # << >> /\ Top.st = "in"
    /\ reply' = [op |-> "CbLoad", v |-> val[Top.c], pan |-> FALSE]
    /\ UNCHANGED state

CbStore(v) ==
    /\ ~IsSet /\ frames # << >> /\ Top.st = "in"
    /\ val' = [val EXCEPT ![Top.c] = v]
    /\ reply' = [op |-> "CbStore", v |-> v, pan |-> FALSE]
    /\ UNCHANGED <<handle, dict, ptr, frames, hash>>

CbKeep(p) ==
    /\ ~IsSet /\ frames # << >> /\ Top.st = "in"
    /\ LET p2 == [ptr EXCEPT ![p] = Top.c] IN
       /\ ptr' = p2
       /\ val' = Clean(val, dict, p2, frames)
    /\ reply' = [op |-> "CbKeep", p |-> p, pan |-> FALSE]
    /\ UNCHANGED <<handle, dict, frames, hash>>

\* The callback of Mod returns and Mod returns.
ModEnd ==
    /\ frames # << >> /\ Top.op = "mod"
    /\ frames' = Pop(frames)
    /\ IF Top.ex THEN UNCHANGED dict
       ELSE dict' = [dict EXCEPT ![Top.r] = (Top.k :> Top.c) @@ @]
    /\ reply' = [op |-> "ModEnd", pan |-> FALSE]
    /\ UNCHANGED <<handle, val, ptr, hash>>

\* The callback of Mod panics and the panic propagates out of Mod to the caller,
\* or it ends the goroutine of the call.
ModPanic ==
    /\ frames # << >> /\ Top.op = "mod"
    /\ frames' = Pop(frames)
    /\ val' = Clean(val, dict, ptr, Pop(frames))
    /\ reply' = [op |-> "ModPanic", pan |-> TRUE]
    /\ UNCHANGED <<handle, dict, ptr, hash>>

----------------------------------------------------------------------------
(* All with open callbacks.  AllNext and AllEnd are steps of the library:  *)
(* which entry comes next is not specified here (Hamt specifies it).       *)

AllBegin(h) ==
    /\ ClientTurn /\ Len(frames) < MaxFrames
    /\ IF handle[h] = 0 THEN Panics(h, "AllBegin", 0)
       ELSE /\ frames' = Append(frames, Frame("all", handle[h], 0, FALSE, 0, "lib", Present(h)))
            /\ reply' = [op |-> "AllBegin", h |-> h, pan |-> FALSE]
            /\ UNCHANGED <<handle, dict, val, ptr, hash>>

AllNext(k) ==
    /\ frames # << >> /\ Top.op = "all" /\ Top.st = "lib" /\ k \in Top.todo
    /\ LET c == dict[Top.r][k] IN
       /\ frames' = SetTop([Top EXCEPT !.st = "in", !.k = k, !.c = c, !.todo = @ \ {k}])
       /\ reply' = [op |-> "AllNext", k |-> k, v |-> val[c], pan |-> FALSE]
    /\ UNCHANGED <<handle, dict, val, ptr, hash>>

AllEnd ==
    /\ frames # << >> /\ Top.op = "all" /\ Top.st = "lib" /\ Top.todo = {}
    /\ frames' = Pop(frames)
    /\ val' = Clean(val, dict, ptr, Pop(frames))
    /\ reply' = [op |-> "AllEnd", pan |-> FALSE]
    /\ UNCHANGED <<handle, dict, ptr, hash>>

\* The callback returns true / returns false / panics.
AllCont ==
    /\ frames # << >> /\ Top.op = "all" /\ Top.st = "in"
    /\ frames' = SetTop([Top EXCEPT !.st = "lib", !.k = 0, !.c = 0])
    /\ reply' = [op |-> "AllCont", pan |-> FALSE]
    /\ UNCHANGED <<handle, dict, val, ptr, hash>>

AllStop ==
    /\ frames # << >> /\ Top.op = "all" /\ Top.st = "in"
    /\ frames' = Pop(frames)
    /\ reply' = [op |-> "AllStop", pan |-> FALSE]
    /\ UNCHANGED <<handle, dict, val, ptr, hash>>

AllPanic ==
    /\ frames # << >> /\ Top.op = "all" /\ Top.st = "in"
    /\ frames' = Pop(frames)
    /\ reply' = [op |-> "AllPanic", pan |-> TRUE]
    /\ UNCHANGED <<handle, dict, val, ptr, hash>>

----------------------------------------------------------------------------
CONSTANT Ops   \* names of the actions enabled in this instance

On(o) == o \in Ops

HandleStep ==
    \/ \E h \in Handles : On("New") /\ New(h)
    \/ \E h, g \in Handles : On("Copy") /\ Copy(h, g)
    \/ \E h \in Handles : On("Drop") /\ Drop(h)
WriteStep ==
    \/ \E h \in Handles, k \in Keys :
          \/ \E v \in Vals : On("Set") /\ Set(h, k, v)
          \/ \E v \in Vals : On("ModA") /\ ModA(h, k, v)
          \/ On("Add") /\ Add(h, k)
          \/ On("Del") /\ Del(h, k)
    \/ \E h \in Handles, v \in Vals : On("AllW") /\ AllW(h, v)
ReadStep ==
    \/ \E h \in Handles, k \in Keys :
          \/ On("Get") /\ Get(h, k)
          \/ On("Val") /\ Val(h, k)
          \/ On("Ptr") /\ Ptr(h, k)
          \/ On("Has") /\ Has(h, k)
    \/ \E h \in Handles :
          \/ On("Len") /\ LenOp(h)
          \/ On("Dep") /\ DepOp(h)
          \/ On("Nil") /\ NilOp(h)
          \/ On("AllA") /\ AllA(h)
          \/ \E n \in 1..Cardinality(Keys) : On("AllN") /\ AllN(h, n)
PtrStep ==
    \/ \E h \in Handles, k \in Keys, p \in PtrNames : On("Keep") /\ Keep(h, k, p)
    \/ \E h \in Handles, k \in Keys, p \in PtrNames : On("SamePtr") /\ SamePtr(h, k, p)
    \/ \E p \in PtrNames : On("Load") /\ Load(p)
    \/ \E p \in PtrNames, v \in Vals : On("Store") /\ Store(p, v)
ModStep ==
    \/ \E h \in Handles, k \in Keys : On("ModBegin") /\ ModBegin(h, k)
    \/ On("ModBegin") /\ (ModEnd \/ ModPanic)
AllStep ==
    \/ \E h \in Handles : On("AllBegin") /\ AllBegin(h)
    \/ On("AllBegin") /\ (AllEnd \/ AllCont \/ AllStop \/ AllPanic)
    \/ \E k \in Keys : On("AllBegin") /\ AllNext(k)
CbStep ==
    \/ On("CbLoad") /\ CbLoad
    \/ \E v \in Vals : On("CbStore") /\ CbStore(v)
    \/ \E p \in PtrNames : On("CbKeep") /\ CbKeep(p)

Next == HandleStep \/ WriteStep \/ ReadStep \/ PtrStep \/ ModStep \/ AllStep \/ CbStep

InitState ==
    /\ dict = [r \in Roots |-> NoEntries]
    /\ val = [c \in Cells |-> 0]
    /\ ptr = [p \in PtrNames |-> 0]
    /\ frames = << >>
    /\ reply = [op |-> "Init", pan |-> FALSE]

\* Start with every handle uninitialized, or with handle 1 constructed.
InitNil == handle = [h \in Handles |-> 0]
InitOne == LET r1 == CHOOSE r \in Roots : TRUE
               h1 == CHOOSE h \in Handles : \A g \in Handles : h <= g
           IN handle = [h \in Handles |-> IF h = h1 THEN r1 ELSE 0]

Spec == InitState /\ [][Next]_vars

----------------------------------------------------------------------------
(* Properties of the abstract machine itself. *)

TypeOK ==
    /\ handle \in [Handles -> Roots \cup {0}]
    /\ \A r \in Roots : DOMAIN dict[r] \subseteq Keys /\ Range(dict[r]) \subseteq Cells
    /\ ptr \in [PtrNames -> Cells \cup {0}]
    /\ Len(frames) <= MaxFrames

\* No two entries, of one container or of two, share a value location.
CellsDistinct ==
    \A r, s \in Roots : \A j \in DOMAIN dict[r], k \in DOMAIN dict[s] :
        dict[r][j] = dict[s][k] => r = s /\ j = k

\* A callback's cell is the entry's own cell, or not yet anyone's.
FramesOK ==
    \A i \in DOMAIN frames : LET f == frames[i] IN
        /\ f.op = "mod" /\ f.ex => f.k \in DOMAIN dict[f.r] /\ dict[f.r][f.k] = f.c
        /\ f.op = "mod" /\ ~f.ex => f.c \notin EntryCells(dict)
        /\ f.op = "all" /\ f.st = "in" => dict[f.r][f.k] = f.c
        /\ f.op = "all" => f.todo \subseteq DOMAIN dict[f.r]

\* Content of a container, with pointers abstracted away.
Content(d, v, r) == [k \in DOMAIN d[r] |-> v[d[r][k]]]

\* C01, C02, C11: one step changes the presence of at most one key of one
\* container (New and dropping the last handle aside), and the value of at
\* most one entry (AllW aside).
OneEntryPerStep ==
    [][ reply'.op \notin {"New", "Copy", "Drop"} =>
        /\ Cardinality({<<r, k>> \in Roots \X Keys :
              (k \in DOMAIN dict[r]) # (k \in DOMAIN dict'[r])}) <= 1
        /\ reply'.op # "AllW" =>
              Cardinality({<<r, k>> \in Roots \X Keys :
                 /\ k \in DOMAIN dict[r] /\ k \in DOMAIN dict'[r]
                 /\ Content(dict, val, r)[k] # Content(dict', val', r)[k]}) <= 1 ]_vars

ReadOps == {"Get", "Val", "Ptr", "Has", "Len", "Dep", "Nil", "AllA", "AllN", "Load", "SamePtr", "CbLoad"}

\* C14, C19: reads change nothing.
ReadsStutter == [][ reply'.op \in ReadOps => UNCHANGED state ]_vars

\* C09: an entry keeps its cell until it is deleted (or its container is
\* replaced), so pointers to it stay attached.
PointersStable ==
    [][ \A r \in Roots : \A k \in DOMAIN dict[r] \cap DOMAIN dict'[r] :
            reply'.op \notin {"New", "Copy", "Drop"} => dict'[r][k] = dict[r][k] ]_vars

\* C09: a deleted entry's cell is never reused while a pointer designates it.
NoReuse ==
    [][ \A r \in Roots : \A k \in DOMAIN dict'[r] \ DOMAIN dict[r] :
            dict'[r][k] \notin (Range(ptr) \cup EntryCells(dict)) \ FrameCells(frames) ]_vars

\* C13: nothing is added or removed while a callback runs, except by it.
PanicIsNoOp == [][ reply'.op \in {"ModPanic", "AllPanic", "AllStop"} => UNCHANGED dict ]_vars
=============================================================================
