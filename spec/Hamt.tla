------------------------------- MODULE Hamt -------------------------------
(***************************************************************************)
(* The algorithm: a bitmap-compressed 16-way trie per container.           *)
(*                                                                         *)
(* A link is the 16-byte cell of the implementation:                       *)
(*   ptr   nothing, an array of links (a branch), or an entry              *)
(*   pmap  which of the W slots of the branch are present                  *)
(*   tmap  which of them hold an entry rather than a branch                *)
(*   ik    the key of an entry when it is stored inline (Inline: integer   *)
(*         containers).  An inline key occupies the very fields pmap and   *)
(*         tmap; what matters of that is that an entry's tmap field then   *)
(*         holds arbitrary bits, Junk[k].                                  *)
(* Whether a link is an entry is known only from its parent's tmap.        *)
(*                                                                         *)
(* A branch's array has Block, 2*Block, .. , W slots; only the root's has  *)
(* W slots throughout.  Slots beyond the present ones may hold left-overs  *)
(* in a wrong implementation, so they are part of the state.               *)
(*                                                                         *)
(* Hamt refines Amt (property Refines).  Dev is a set of names of          *)
(* deviations: defects found in the implementation, and other mistakes     *)
(* that show which obligations each part of the algorithm discharges.      *)
(* Dev = {} is the algorithm as it should be.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Digits

CONSTANTS Keys, Vals, Handles, Roots, PtrNames, Cells, IsSet, MaxFrames, Ops,
          W,        \* cardinality of a level: 16
          Block,    \* allocation unit of arrays: 4
          Chunk,    \* digits per hash: 16
          Inline,   \* keys stored inline
          Junk,     \* key -> subset of slots: bits the inline key leaves in tmap
          Dev       \* deviations

VARIABLES handle, tree, len, dep, scratch, val, ptr, frames, hash, reply

vars  == <<handle, tree, len, dep, scratch, val, ptr, frames, hash, reply>>
state == <<handle, tree, len, dep, scratch, val, ptr, frames, hash>>

----------------------------------------------------------------------------
(* Links *)

NilLink == [ptr |-> [p |-> "nil"], pmap |-> {}, tmap |-> {}, ik |-> 0]
IsArr(l)  == l.ptr.p = "arr"
IsCell(l) == l.ptr.p = "cell"

CapFor(n) == IF n = 0 THEN Block
             ELSE Min2(W, ((n + Block - 1) \div Block) * Block)
NewArr(n) == [i \in 1..CapFor(n) |-> NilLink]
EmptyRoot == [ptr |-> [p |-> "arr", a |-> [i \in 1..W |-> NilLink]],
              pmap |-> {}, tmap |-> {}, ik |-> 0]

KvLink(k, c) ==
    [ptr |-> [p |-> "cell", c |-> c, k |-> k], pmap |-> {},
     tmap |-> IF Inline THEN Junk[k] ELSE {}, ik |-> IF Inline THEN k ELSE 0]

\* The key and cell of a link taken for an entry (0: garbage).
KeyOf(l)  == IF Inline THEN l.ik ELSE IF IsCell(l) THEN l.ptr.k ELSE 0
CellIn(l) == IF IsCell(l) THEN l.ptr.c ELSE 0

Idx(pmap, r) == Cardinality({x \in pmap : x < r})

\* Digit number d (0, 1, ..) of key k.
Dig(k, d) == hash[k][d + 1]
\* Digits a deletion or lookup may have to look at.
MaxDepth == Len(hash[CHOOSE k \in Keys : TRUE]) - 1

\* Deviation: the hash is not renewed when its digits are used up.
DigAt(k, d) == IF "NoRehash" \in Dev THEN Dig(k, d % Chunk) ELSE Dig(k, d)

----------------------------------------------------------------------------
(* Lookup: the cell of k, 0 when missing. *)

RECURSIVE Find(_, _, _)
Find(l, k, d) ==
    IF d > MaxDepth THEN 0 ELSE
    LET r == DigAt(k, d) IN
    IF r \notin l.pmap THEN 0
    ELSE LET item == l.ptr.a[Idx(l.pmap, r) + 1] IN
         IF r \notin l.tmap
         THEN IF IsArr(item) THEN Find(item, k, d + 1) ELSE 0
         ELSE IF KeyOf(item) = k THEN CellIn(item) ELSE 0

\* The key found where k would be (0: none): what a miss collides with.
RECURSIVE Rival(_, _, _)
Rival(l, k, d) ==
    LET r == DigAt(k, d) IN
    IF r \notin l.pmap THEN 0
    ELSE LET item == l.ptr.a[Idx(l.pmap, r) + 1] IN
         IF r \notin l.tmap
         THEN IF IsArr(item) THEN Rival(item, k, d + 1) ELSE 0
         ELSE KeyOf(item)

----------------------------------------------------------------------------
(* Insertion of a missing key: [l: new link, dep: change of the depth sum] *)

\* The stored rival's digit at depth e, as recomputed by a split that began
\* at depth d0.  Two of the defects found computed it from a wrong hash for
\* the rest of the first 16 digits.
RivalDigit(ck, k, e, d0) ==
    IF "SplitWrongIter" \in Dev /\ e \div Chunk = d0 \div Chunk
    THEN LET at == (d0 % Chunk) * Chunk + (e % Chunk)
         IN IF at <= MaxDepth THEN Dig(ck, at) ELSE 0
    ELSE IF "SplitWrongKey" \in Dev /\ e \div Chunk = d0 \div Chunk
    THEN LET at == (d0 % Chunk) * Chunk + (e % Chunk)
         IN IF at <= MaxDepth THEN Dig(k, at) ELSE 0
    ELSE DigAt(ck, e)

\* Replace the entry link `item` (key ck) by a branch holding it and k.
\* (Digits run out under deviations only: the rival is lost.)
RECURSIVE Chain(_, _, _, _, _, _)
Chain(item, rival, k, c, e, d0) ==
    IF e > MaxDepth THEN [l |-> KvLink(k, c), dep |-> 0] ELSE
    LET ck == KeyOf(rival)
        kd == DigAt(k, e)
        cd == RivalDigit(ck, k, e, d0)
        pm == {kd, cd}
        tm == IF kd # cd THEN pm
              ELSE IF "IntStaleTmap" \in Dev THEN item.tmap ELSE {}
        kv  == KvLink(k, c)
        ckv == KvLink(ck, CellIn(rival))
    IN  IF kd # cd
        THEN [l |-> [ptr |-> [p |-> "arr", a |->
                        [NewArr(2) EXCEPT ![1] = IF kd < cd THEN kv ELSE ckv,
                                          ![2] = IF kd < cd THEN ckv ELSE kv]],
                     pmap |-> pm, tmap |-> tm, ik |-> 0],
              dep |-> 2 * e]
        ELSE LET x == Chain(NilLink, rival, k, c, e + 1, d0)
             IN  [l |-> [ptr |-> [p |-> "arr", a |-> [NewArr(1) EXCEPT ![1] = x.l]],
                         pmap |-> pm, tmap |-> tm, ik |-> 0],
                  dep |-> x.dep]

RECURSIVE Ins(_, _, _, _)
Ins(l, k, c, d) ==
    LET r == DigAt(k, d)
        i == Idx(l.pmap, r)
    IN
    IF r \in l.pmap
    THEN LET item == l.ptr.a[i + 1] IN
         IF r \notin l.tmap
         THEN LET x == Ins(item, k, c, d + 1)
              IN  [l |-> [l EXCEPT !.ptr.a[i + 1] = x.l], dep |-> x.dep]
         ELSE LET x == Chain(item, item, k, c, d + 1, d)
              IN  [l |-> [l EXCEPT !.tmap = @ \ {r}, !.ptr.a[i + 1] = x.l],
                   dep |-> IF "SplitDepDrift" \in Dev THEN x.dep ELSE x.dep - d]
    ELSE LET n    == Cardinality(l.pmap)
             grow == ~((n # 0 /\ n % Block # 0) \/ d = 0)
             old  == l.ptr.a
             base == IF grow THEN NewArr(n + 1) ELSE old
             arr  == [j \in 1..Len(base) |->
                        IF j <= i THEN old[j]
                        ELSE IF j = i + 1 THEN KvLink(k, c)
                        ELSE IF j <= n + 1 THEN old[j - 1]
                        ELSE base[j]]
         IN  [l |-> [l EXCEPT !.ptr.a = arr, !.pmap = @ \cup {r}, !.tmap = @ \cup {r}],
              dep |-> d]

----------------------------------------------------------------------------
(* Deletion of a present key.  kv: the branch collapsed into an entry.     *)
(* gone: the branch became empty.                                          *)

Collapse(l, d) ==
    IF Cardinality(l.pmap) = 1 /\ l.pmap = l.tmap /\ d # 0 /\ "NoCollapse" \notin Dev
    THEN [l |-> l.ptr.a[1], kv |-> TRUE, gone |-> FALSE,
          dep |-> IF "CollapseDepDrift" \in Dev THEN 0 ELSE -1]
    ELSE [l |-> l, kv |-> FALSE, gone |-> FALSE, dep |-> 0]

Remove(l, r, d) ==
    LET pm == l.pmap \ {r}
        n  == Cardinality(pm)
        i  == Idx(pm, r)
        old == l.ptr.a
        realloc == n % Block = 0 /\ d # 0 /\ "NoShrink" \notin Dev
        arr == IF realloc
               THEN [j \in 1..CapFor(n) |->
                        IF j <= i THEN old[j] ELSE IF j <= n THEN old[j + 1] ELSE NilLink]
               ELSE [j \in 1..Len(old) |->
                        IF j <= i THEN old[j]
                        ELSE IF j <= n THEN old[j + 1]
                        ELSE IF j = n + 1 /\ "StaleTail" \notin Dev THEN NilLink
                        ELSE old[j]]
        l2 == [l EXCEPT !.pmap = pm, !.tmap = @ \ {r}, !.ptr.a = arr]
    IN  IF n = 0 /\ d # 0
        THEN [l |-> NilLink, kv |-> FALSE, gone |-> TRUE, dep |-> 0]
        ELSE Collapse(l2, d)

RECURSIVE DelR(_, _, _)
DelR(l, k, d) ==
    LET r == DigAt(k, d)
        i == Idx(l.pmap, r)
        item == l.ptr.a[i + 1]
    IN
    IF r \in l.tmap
    THEN LET x == Remove(l, r, d) IN [x EXCEPT !.dep = @ - d]
    ELSE LET x == DelR(item, k, d + 1) IN
         IF x.gone THEN LET y == Remove(l, r, d) IN [y EXCEPT !.dep = @ + x.dep]
         ELSE LET l2 == [l EXCEPT !.ptr.a[i + 1] = x.l,
                                  !.tmap = IF x.kv THEN @ \cup {r} ELSE @]
                  \* only a branch whose own child has just collapsed can collapse
                  y  == IF x.kv /\ "CollapseOnce" \notin Dev THEN Collapse(l2, d)
                        ELSE [l |-> l2, kv |-> FALSE, gone |-> FALSE, dep |-> 0]
              IN [y EXCEPT !.dep = @ + x.dep]

----------------------------------------------------------------------------
(* Iteration, and the entries a link reaches *)

RECURSIVE Scan(_)
Scan(l) ==
    LET RECURSIVE Go(_, _)
        Go(pm, i) ==
            IF pm = {} THEN << >>
            ELSE LET r == CHOOSE r \in pm : \A x \in pm : r <= x
                     item == l.ptr.a[i]
                 IN (IF r \in l.tmap THEN <<<<KeyOf(item), CellIn(item)>>>>
                     ELSE IF IsArr(item) THEN Scan(item) ELSE << >>)
                    \o Go(pm \ {r}, i + 1)
    IN Go(l.pmap, 1)

\* Every cell reachable through pointers, present or left over.
RECURSIVE Reach(_)
Reach(l) ==
    IF IsCell(l) THEN {l.ptr.c}
    ELSE IF IsArr(l) THEN UNION {Reach(l.ptr.a[i]) : i \in 1..Len(l.ptr.a)}
    ELSE {}

\* The arrays a traversal for k passes through (what the deletion scratch
\* would keep alive): the union of what they reach.
RECURSIVE PathReach(_, _, _)
PathReach(l, k, d) ==
    LET r == DigAt(k, d) IN
    IF r \notin l.pmap \/ r \in l.tmap THEN {}
    ELSE LET item == l.ptr.a[Idx(l.pmap, r) + 1]
         IN Reach(l) \cup (IF IsArr(item) THEN PathReach(item, k, d + 1) ELSE {})

ScanKeys(l)  == LET s == Scan(l) IN {s[i][1] : i \in DOMAIN s}
AbsDict(l)   == LET s == Scan(l) IN
                [k \in {s[i][1] : i \in DOMAIN s} |->
                    (CHOOSE e \in {s[i] : i \in DOMAIN s} : e[1] = k)[2]]

----------------------------------------------------------------------------
(* The actions of Amt, by means of the tree *)

Range(f) == {f[x] : x \in DOMAIN f}
FrameCells(fs) == {fs[i].c : i \in DOMAIN fs} \ {0}
LiveCells(t) == UNION {LET s == Scan(t[r]) IN {s[i][2] : i \in DOMAIN s} : r \in Roots}
UsedCells(t, p, fs) == LiveCells(t) \cup (Range(p) \ {0}) \cup FrameCells(fs)
FreshCell == LET u == UsedCells(tree, ptr, frames) IN CHOOSE c \in Cells : c \notin u
HasFreshCell == UsedCells(tree, ptr, frames) # Cells
Clean(v, t, p, fs) == LET u == UsedCells(t, p, fs) IN [c \in Cells |-> IF c \in u THEN v[c] ELSE 0]

Top == frames[Len(frames)]
Pop(fs) == SubSeq(fs, 1, Len(fs) - 1)
SetTop(f) == [frames EXCEPT ![Len(frames)] = f]
ClientTurn == IF frames = << >> THEN TRUE ELSE Top.st = "in"
Busy(r) == \E i \in DOMAIN frames : frames[i].r = r

\* One handle per root here: Amt alone deals with copies.
R(h) == handle[h]
Cell(h, k) == Find(tree[R(h)], k, 0)

On(o) == o \in Ops
Same == UNCHANGED <<handle, hash>>

\* Put k -> c into root r's tree (k missing).
Insert(r, k, c) ==
    LET x == Ins(tree[r], k, c, 0) IN
    /\ tree' = [tree EXCEPT ![r] = x.l]
    /\ dep'  = [dep EXCEPT ![r] = @ + x.dep]
    /\ len'  = [len EXCEPT ![r] = @ + 1]

NoTreeChange == UNCHANGED <<tree, len, dep>>

StoreEntry(h, k, v) ==
    LET c == Cell(h, k) IN
    IF c # 0 THEN val' = [val EXCEPT ![c] = v] /\ NoTreeChange
    ELSE /\ HasFreshCell
         /\ Insert(R(h), k, FreshCell)
         /\ val' = [val EXCEPT ![FreshCell] =
                      IF "DropValue" \in Dev /\ Rival(tree[R(h)], k, 0) # 0 THEN 0 ELSE v]

Set(h, k, v) ==
    /\ ~IsSet /\ ClientTurn /\ ~Busy(R(h))
    /\ StoreEntry(h, k, v)
    /\ reply' = [op |-> "Set", h |-> h, k |-> k, v |-> v, pan |-> FALSE]
    /\ Same /\ UNCHANGED <<scratch, ptr, frames>>

Add(h, k) ==
    /\ IsSet /\ ClientTurn /\ ~Busy(R(h))
    /\ IF Cell(h, k) # 0 THEN NoTreeChange /\ UNCHANGED val ELSE StoreEntry(h, k, 0)
    /\ reply' = [op |-> "Add", h |-> h, k |-> k, pan |-> FALSE]
    /\ Same /\ UNCHANGED <<scratch, ptr, frames>>

Del(h, k) ==
    /\ ClientTurn /\ ~Busy(R(h))
    /\ LET r == R(h) IN
       IF Cell(h, k) = 0
       THEN /\ NoTreeChange /\ UNCHANGED val
            /\ scratch' = IF "StalePath" \in Dev
                          THEN [scratch EXCEPT ![r] = @ \cup PathReach(tree[r], k, 0)]
                          ELSE scratch
       ELSE LET x == DelR(tree[r], k, 0) IN
            /\ tree' = [tree EXCEPT ![r] = x.l]
            /\ dep'  = [dep EXCEPT ![r] = @ + x.dep]
            /\ len'  = [len EXCEPT ![r] = @ - 1]
            /\ val'  = Clean(val, tree', ptr, frames)
            /\ UNCHANGED scratch
    /\ reply' = [op |-> "Del", h |-> h, k |-> k, pan |-> FALSE]
    /\ Same /\ UNCHANGED <<ptr, frames>>

ModA(h, k, v) ==
    /\ ~IsSet /\ ClientTurn /\ ~Busy(R(h))
    /\ StoreEntry(h, k, v)
    /\ LET c == Cell(h, k) IN
       reply' = [op |-> "ModA", h |-> h, k |-> k, v |-> v,
                 ex |-> c # 0, old |-> IF c # 0 THEN val[c] ELSE 0, pan |-> FALSE]
    /\ Same /\ UNCHANGED <<scratch, ptr, frames>>

Get(h, k) ==
    /\ ~IsSet /\ ClientTurn
    /\ LET c == Cell(h, k) IN
       reply' = [op |-> "Get", h |-> h, k |-> k, ok |-> c # 0,
                 v |-> IF c # 0 THEN val[c] ELSE 0, pan |-> FALSE]
    /\ UNCHANGED state

Has(h, k) ==
    /\ IsSet /\ ClientTurn
    /\ reply' = [op |-> "Has", h |-> h, k |-> k, ok |-> Cell(h, k) # 0, pan |-> FALSE]
    /\ UNCHANGED state

LenOp(h) ==
    /\ ClientTurn
    /\ reply' = [op |-> "Len", h |-> h, n |-> len[R(h)], pan |-> FALSE]
    /\ UNCHANGED state

DepOp(h) ==
    /\ ClientTurn
    /\ reply' = [op |-> "Dep", h |-> h, sum |-> dep[R(h)], n |-> len[R(h)], pan |-> FALSE]
    /\ UNCHANGED state

AllA(h) ==
    /\ ClientTurn
    /\ LET s == Scan(tree[R(h)]) IN
       reply' = [op |-> "AllA", h |-> h,
                 es |-> {<<s[i][1], IF s[i][2] = 0 THEN 0 ELSE val[s[i][2]]>> : i \in DOMAIN s},
                 pan |-> FALSE]
    /\ UNCHANGED state

Keep(h, k, p) ==
    /\ ~IsSet /\ ClientTurn
    /\ LET c == Cell(h, k)
           p2 == [ptr EXCEPT ![p] = c]
       IN /\ ptr' = p2
          /\ val' = Clean(val, tree, p2, frames)
          /\ reply' = [op |-> "Keep", h |-> h, k |-> k, p |-> p, ok |-> c # 0, pan |-> FALSE]
    /\ Same /\ UNCHANGED <<tree, len, dep, scratch, frames>>

Load(p) ==
    /\ ClientTurn /\ ptr[p] # 0
    /\ reply' = [op |-> "Load", p |-> p, v |-> val[ptr[p]], pan |-> FALSE]
    /\ UNCHANGED state

Store(p, v) ==
    /\ ClientTurn /\ ptr[p] # 0
    /\ val' = [val EXCEPT ![ptr[p]] = v]
    /\ reply' = [op |-> "Store", p |-> p, v |-> v, pan |-> FALSE]
    /\ Same /\ UNCHANGED <<tree, len, dep, scratch, ptr, frames>>

Frame(o, r, k, ex, c, st, todo) ==
    [op |-> o, r |-> r, k |-> k, ex |-> ex, c |-> c, st |-> st, todo |-> todo]

\* Mod finds out where the key belongs, then calls back before it touches
\* the structure.  The deviation has already begun the split by then.
ModBegin(h, k) ==
    /\ ~IsSet /\ ClientTurn /\ ~Busy(R(h)) /\ Len(frames) < MaxFrames
    /\ LET r == R(h)
           c0 == Cell(h, k)
           ex == c0 # 0
           c  == IF ex THEN c0 ELSE FreshCell
       IN /\ (IF ex THEN TRUE ELSE HasFreshCell)
          /\ frames' = Append(frames, Frame("mod", r, k, ex, c, "in", {}))
          /\ val' = IF ex THEN val ELSE [val EXCEPT ![c] = 0]
          /\ reply' = [op |-> "ModBegin", h |-> h, k |-> k, ex |-> ex,
                       v |-> IF ex THEN val[c] ELSE 0, pan |-> FALSE]
          /\ IF "ModEarly" \in Dev /\ ~ex /\ Rival(tree[r], k, 0) # 0
             THEN \* rival unlinked while the callback runs
                  LET rv == Rival(tree[r], k, 0)
                      x  == DelR(tree[r], rv, 0)
                  IN /\ tree' = [tree EXCEPT ![r] = x.l]
                     /\ dep' = [dep EXCEPT ![r] = @ + x.dep]
                     /\ UNCHANGED len
             ELSE NoTreeChange
    /\ Same /\ UNCHANGED <<scratch, ptr>>

CbLoad ==
    /\ ~IsSet /\ frames # << >> /\ Top.st = "in"
    /\ reply' = [op |-> "CbLoad", v |-> val[Top.c], pan |-> FALSE]
    /\ UNCHANGED state

CbStore(v) ==
    /\ ~IsSet /\ frames # << >> /\ Top.st = "in"
    /\ val' = [val EXCEPT ![Top.c] = v]
    /\ reply' = [op |-> "CbStore", v |-> v, pan |-> FALSE]
    /\ Same /\ UNCHANGED <<tree, len, dep, scratch, ptr, frames>>

ModEnd ==
    /\ frames # << >> /\ Top.op = "mod"
    /\ frames' = Pop(frames)
    /\ IF Top.ex THEN NoTreeChange ELSE Insert(Top.r, Top.k, Top.c)
    /\ reply' = [op |-> "ModEnd", pan |-> FALSE]
    /\ Same /\ UNCHANGED <<scratch, val, ptr>>

ModPanic ==
    /\ frames # << >> /\ Top.op = "mod"
    /\ frames' = Pop(frames)
    /\ val' = Clean(val, tree, ptr, Pop(frames))
    /\ reply' = [op |-> "ModPanic", pan |-> TRUE]
    /\ Same /\ UNCHANGED <<tree, len, dep, scratch, ptr>>

\* The scan of All proceeds in tree order: the next entry is the first one
\* in Scan that has not been visited.
AllBegin(h) ==
    /\ ClientTurn /\ Len(frames) < MaxFrames
    /\ frames' = Append(frames, Frame("all", R(h), 0, FALSE, 0, "lib", ScanKeys(tree[R(h)])))
    /\ reply' = [op |-> "AllBegin", h |-> h, pan |-> FALSE]
    /\ Same /\ UNCHANGED <<tree, len, dep, scratch, val, ptr>>

AllNext ==
    /\ frames # << >> /\ Top.op = "all" /\ Top.st = "lib" /\ Top.todo # {}
    /\ LET s == Scan(tree[Top.r])
           i == CHOOSE i \in DOMAIN s : s[i][1] \in Top.todo /\
                    \A j \in DOMAIN s : s[j][1] \in Top.todo => i <= j
       IN /\ frames' = SetTop([Top EXCEPT !.st = "in", !.k = s[i][1], !.c = s[i][2],
                                          !.todo = @ \ {s[i][1]}])
          /\ reply' = [op |-> "AllNext", k |-> s[i][1], v |-> val[s[i][2]], pan |-> FALSE]
    /\ Same /\ UNCHANGED <<tree, len, dep, scratch, val, ptr>>

AllEnd ==
    /\ frames # << >> /\ Top.op = "all" /\ Top.st = "lib" /\ Top.todo = {}
    /\ frames' = Pop(frames)
    /\ val' = Clean(val, tree, ptr, Pop(frames))
    /\ reply' = [op |-> "AllEnd", pan |-> FALSE]
    /\ Same /\ UNCHANGED <<tree, len, dep, scratch, ptr>>

AllCont ==
    /\ frames # << >> /\ Top.op = "all" /\ Top.st = "in"
    /\ frames' = SetTop([Top EXCEPT !.st = "lib", !.k = 0, !.c = 0])
    /\ reply' = [op |-> "AllCont", pan |-> FALSE]
    /\ Same /\ UNCHANGED <<tree, len, dep, scratch, val, ptr>>

AllStop ==
    /\ frames # << >> /\ Top.op = "all" /\ Top.st = "in"
    /\ frames' = Pop(frames)
    /\ reply' = [op |-> "AllStop", pan |-> FALSE]
    /\ Same /\ UNCHANGED <<tree, len, dep, scratch, val, ptr>>

Next ==
    \/ \E h \in Handles, k \in Keys :
          \/ \E v \in Vals : On("Set") /\ Set(h, k, v)
          \/ \E v \in Vals : On("ModA") /\ ModA(h, k, v)
          \/ On("Add") /\ Add(h, k)
          \/ On("Del") /\ Del(h, k)
          \/ On("Get") /\ Get(h, k)
          \/ On("Has") /\ Has(h, k)
          \/ On("ModBegin") /\ ModBegin(h, k)
          \/ \E p \in PtrNames : On("Keep") /\ Keep(h, k, p)
    \/ \E h \in Handles :
          \/ On("Len") /\ LenOp(h)
          \/ On("Dep") /\ DepOp(h)
          \/ On("AllA") /\ AllA(h)
          \/ On("AllBegin") /\ AllBegin(h)
    \/ \E p \in PtrNames : On("Load") /\ Load(p)
    \/ \E p \in PtrNames, v \in Vals : On("Store") /\ Store(p, v)
    \/ On("CbLoad") /\ CbLoad
    \/ \E v \in Vals : On("CbStore") /\ CbStore(v)
    \/ ModEnd \/ ModPanic \/ AllNext \/ AllEnd \/ AllCont \/ AllStop

\* Handle i is constructed with root i (handles and copies: see Amt).
InitState ==
    /\ handle = [h \in Handles |-> h]
    /\ tree = [r \in Roots |-> EmptyRoot]
    /\ len = [r \in Roots |-> 0]
    /\ dep = [r \in Roots |-> 0]
    /\ scratch = [r \in Roots |-> {}]
    /\ val = [c \in Cells |-> 0]
    /\ ptr = [p \in PtrNames |-> 0]
    /\ frames = << >>
    /\ reply = [op |-> "Init", pan |-> FALSE]

----------------------------------------------------------------------------
(* Refinement *)

Abs == INSTANCE Amt WITH
          dict <- [r \in Roots |-> AbsDict(tree[r])],
          Normalise <- TRUE
Refines == [][Abs!Next]_(Abs!vars)

(* Properties of the structure *)

Present(r) == ScanKeys(tree[r])

\* C03, C06: the running counters are exact.
LenExact == \A r \in Roots : len[r] = Cardinality(Present(r)) /\ len[r] = Len(Scan(tree[r]))
DepExact == \A r \in Roots : dep[r] = DepSum(hash, Present(r))

\* C01, C02, C07: every entry is where a lookup finds it.
Findable == \A r \in Roots : LET s == Scan(tree[r]) IN
                \A i \in DOMAIN s : s[i][1] \in Keys /\ s[i][2] \in Cells
                                    /\ Find(tree[r], s[i][1], 0) = s[i][2]

\* C05: the shape, and so the iteration order, is a function of the key set.
OrderCanonical ==
    \A r \in Roots : LET s == Scan(tree[r]) IN
        [i \in DOMAIN s |-> s[i][1]] = CanonOrder(hash, Present(r))

RECURSIVE ShapeOf(_)
ShapeOf(l) ==
    [pmap |-> l.pmap, tmap |-> l.tmap, cap |-> Len(l.ptr.a),
     sub |-> [i \in 1..Cardinality(l.pmap) |->
                LET r == CHOOSE r \in l.pmap : Idx(l.pmap, r) = i - 1 IN
                IF r \in l.tmap THEN [key |-> KeyOf(l.ptr.a[i])] ELSE ShapeOf(l.ptr.a[i])]]
RECURSIVE CanonShape(_, _)
CanonShape(S, d) ==
    LET pm == {Dig(k, d) : k \in S}
        At(r) == {k \in S : Dig(k, d) = r}
        tm == {r \in pm : Cardinality(At(r)) = 1}
    IN [pmap |-> pm, tmap |-> tm, cap |-> IF d = 0 THEN W ELSE CapFor(Cardinality(pm)),
        sub |-> [i \in 1..Cardinality(pm) |->
                   LET r == CHOOSE r \in pm : Idx(pm, r) = i - 1 IN
                   IF r \in tm THEN [key |-> CHOOSE k \in At(r) : TRUE]
                   ELSE CanonShape(At(r), d + 1)]]
Canonical == \A r \in Roots : ShapeOf(tree[r]) = CanonShape(Present(r), 0)

\* C15: nothing but the present entries is reachable.
NothingRetained ==
    \A r \in Roots :
        LET live == LET s == Scan(tree[r]) IN {s[i][2] : i \in DOMAIN s}
        IN Reach(tree[r]) = live /\ scratch[r] \subseteq live

\* C16: arrays are always long enough for what they hold.
RECURSIVE FitsIn(_)
FitsIn(l) ==
    /\ Cardinality(l.pmap) <= Len(l.ptr.a)
    /\ l.tmap \subseteq l.pmap
    /\ \A r \in l.pmap \ l.tmap : LET item == l.ptr.a[Idx(l.pmap, r) + 1]
                                  IN IsArr(item) /\ FitsIn(item)
    /\ \A r \in l.tmap : IsCell(l.ptr.a[Idx(l.pmap, r) + 1])
Fits == \A r \in Roots : FitsIn(tree[r])
=============================================================================
