------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Is a history recorded from the real containers a behaviour of Amt?      *)
(*                                                                         *)
(* The file named by TRACE holds one event per line: a call with its       *)
(* arguments and its result, or one step of a call with open callbacks.    *)
(* Every event is a step of Amt with the event's arguments; Judge compares *)
(* the result Amt gives (reply') with the recorded one and prints each     *)
(* difference with a tag that says what kind of promise it breaks.  Steps  *)
(* the library chooses (which entry All visits next, when it ends, whether *)
(* Mod calls back) are compared with what Amt allows; if Amt does not      *)
(* allow them the rest of the segment is skipped.                          *)
(***************************************************************************)
EXTENDS Amt, Crowd, Json, IOUtils

VARIABLES i,      \* next event
          skip,   \* the rest of this segment cannot be interpreted
          gone,   \* for each key, the last event that left it in no container
          inst,   \* for each root and key, the instances of the key it may hold
          crowd   \* for each root, how many members of the crowd it holds, and their depth

tvars == <<handle, dict, val, ptr, frames, hash, reply, i, skip, gone, inst, crowd>>

Tr == ndJsonDeserialize(IOEnv.TRACE)
Profiles == JsonDeserialize(IOEnv.PROFILES)

N == Tr[1].n
TraceKeys == 1..N
TraceHandles == 1..Tr[1].handles
TraceIsSet == Tr[1].set
MaxRoots == Tr[1].handles + 2
TraceCells == 1..(MaxRoots * N + 16)
TraceRoots == 1..MaxRoots

\* lcp of every two keys, per profile: computed once (pre digits are shared by all keys and not listed)
NP == Len(Profiles)
ProfIx == [nm \in {Profiles[j].name : j \in 1..NP} |->
              CHOOSE j \in 1..NP : Profiles[j].name = nm]
LcpTab == TLCEval([j \in 1..NP |-> TLCEval([a \in 1..N |-> TLCEval([b \in 1..N |->
              IF a = b THEN 0 ELSE Profiles[j].pre + LcpSeq(Profiles[j].digits[a], Profiles[j].digits[b])])])])
TraceLcp(H, a, b) == LcpTab[H][a][b]

Ev == Tr[i]
Has0(e, f) == f \in DOMAIN e

----------------------------------------------------------------------------
(* Comparing results *)

SeqSet(s) == {s[j] : j \in DOMAIN s}
NoDup(s) == \A a, b \in DOMAIN s : a # b => s[a] # s[b]
Tag(c, t) == IF c THEN {} ELSE {t}

\* The crowd of a handle's container.
NoCrowd == [n |-> 0, dep |-> 0, pre |-> 0, slots |-> 0]
CrowdOf(h) == IF handle[h] = 0 THEN NoCrowd ELSE crowd[handle[h]]

\* Visits to members of the crowd: e.cn of them, e.cx repeated or not present,
\* e.cw with another value.
CrowdVisits(e, most) ==
    Tag(e.cx = 0 /\ e.cn <= CrowdOf(e.h).n, "all") \cup Tag(e.cw = 0, "allv")
    \cup Tag(e.e # "AllN" \/ Len(e.ks) + e.cn <= most, "stop")
    \cup Tag(Len(e.ks) + e.cn >= most, "all")

\* Visits reported by an iteration: keys ks, values vs; entries es expected.
NotRead == -7   \* a value that another goroutine may have been writing
Visits(e, es) ==
    LET ks == e.ks
        want == {x[1] : x \in es}
        valOf == [k \in want |-> (CHOOSE x \in es : x[1] = k)[2]]
    IN  Tag(\A j \in DOMAIN ks : ks[j] \in Keys, "key")
        \cup Tag(NoDup(ks), "all") \cup Tag(SeqSet(ks) \subseteq want, "all")
        \cup Tag(\A j \in DOMAIN ks : ks[j] \in want => e.vs[j] \in {valOf[ks[j]], NotRead}, "allv")

Tags(e, r) ==
    IF r.pan # (Has0(e, "pan") /\ e.pan) THEN {"nil"}
    ELSE IF r.pan THEN (IF Has0(e, "calls") THEN Tag(e.calls = 0, "nil") ELSE {})
                       \cup (IF Has0(e, "ks") THEN Tag(e.ks = << >>, "nil") ELSE {})
    ELSE CASE e.e \in {"Get", "Ptr"} ->
                Tag(e.ok = r.ok, "look") \cup Tag(e.v = r.v, "lookv")
         [] e.e = "Val" -> Tag(e.v = r.v, "lookv")
         [] e.e = "Has" -> Tag(e.ok = r.ok, "has")
         [] e.e = "ModA" -> Tag(e.calls = 1, "modcalls") \cup Tag(e.ex = r.ex, "modex")
                            \cup Tag(e.old = r.old, "modold")
         [] e.e = "ModBegin" -> Tag(e.ex = r.ex, "modex") \cup Tag(e.v = r.v, "modold")
         [] e.e = "Len" -> Tag(e.n = r.n + CrowdOf(e.h).n, "len")
         [] e.e = "Dep" ->
                (IF e.p < 0 THEN {"dep"}
                 ELSE IF CrowdOf(e.h).n > 0
                 THEN LET c == CrowdOf(e.h) IN
                      IF e.x THEN Tag(e.q = r.n + c.n /\ e.p = r.sum + c.n * c.dep, "dep")
                      ELSE IF c.pre = 0 THEN Tag(Logarithmic(e.p, e.q), "logdep") ELSE {}
                 ELSE IF r.n = 0 THEN Tag(e.p = 0, "dep")
                 ELSE IF e.x THEN Tag(e.p * r.n = r.sum * e.q, "dep") ELSE {})
                \cup (IF e.ref = 0 THEN {} ELSE
                      Tag(Tr[e.ref].p = e.p /\ Tr[e.ref].q = e.q, "depref"))
         [] e.e = "Nil" -> Tag(e.ok = r.ok, "nil")
         [] e.e \in {"AllA", "AllW"} ->
                Visits(e, r.es) \cup CrowdVisits(e, Cardinality(r.es) + CrowdOf(e.h).n)
                \cup (IF e.ref = 0 THEN {} ELSE
                      Tag(Tr[e.ref].ks = e.ks /\ Tr[e.ref].co = e.co, IF e.rep THEN "repeat" ELSE "order"))
         [] e.e = "AllN" -> Visits(e, r.es)
                            \cup CrowdVisits(e, Min2(e.lim, Cardinality(r.es) + CrowdOf(e.h).n))
         [] e.e = "Keep" -> Tag(e.ok = r.ok, "look")
         [] e.e = "Load" -> Tag(e.v = r.v, "ptrv")
         [] e.e = "SamePtr" -> Tag(e.ok = r.ok, "ptr")
         [] e.e = "CbLoad" -> Tag(e.v = r.v, "cbv")
         [] e.e = "AllNext" -> Tag(e.v = r.v, "allv")
         [] OTHER -> {}

(* Instances of keys (C04, C19): keys that are Equal may differ otherwise.  *)
(* Where instances can be told apart, a container reports the one it was   *)
(* given: for a set the one added first, and for a map that or a later one *)
(* (an update may or may not replace the key).  Arguments of lookups and   *)
(* deletions, and instances from before a deletion, never appear.          *)

NoInst == [r \in Roots |-> [k \in Keys |-> {}]]
NextInst(e) ==
    IF e.e = "reset" THEN NoInst
    ELSE IF skip THEN inst
    ELSE IF e.e = "New" THEN [inst EXCEPT ![handle'[e.h]] = [k \in Keys |-> {}]]
    ELSE IF e.e \in {"Set", "Add", "ModA", "ModBegin"} /\ handle[e.h] # 0
    THEN [inst EXCEPT ![handle[e.h]][e.k] =
            IF e.k \notin Present(e.h) THEN {e.in} ELSE IF IsSet THEN @ ELSE @ \cup {e.in}]
    ELSE inst
InstTags(e) ==
    IF e.e \in {"AllA", "AllW", "AllN"} /\ handle[e.h] # 0
    THEN Tag(\A j \in DOMAIN e.is : e.ks[j] \in Present(e.h) => e.is[j] \in inst[handle[e.h]][e.ks[j]], "inst")
    ELSE {}

\* Where the difference occurred: inside callbacks, and of which call.
Where == IF frames = << >> THEN "" ELSE Top.op \o (IF Top.ex THEN "1" ELSE "0")

Report(tags, r) ==
    IF tags = {} THEN TRUE
    ELSE PrintT("MISMATCH " \o ToJson([i |-> i, tags |-> tags, cb |-> Where, ev |-> Ev, want |-> r]))

(* Two containers with the same keys (C22): each hashes with a random seed  *)
(* of its own, so their orders are independent permutations.  That two of   *)
(* 16 or more keys are the same has a chance of 5e-14, and that two of 1500 *)
(* are, 5e-8.                                                              *)
TwinTags(e) ==
    IF e.e = "AllA" /\ e.oth # 0 /\ hash = 0 /\ Len(e.ks) >= 16
    THEN Tag(Tr[e.oth].ks # e.ks, "twin") ELSE {}
ManyTags(e) ==
    Tag(\A j \in DOMAIN e.all : NoDup(e.all[j]) /\ SeqSet(e.all[j]) = SeqSet(e.ks), "all")
    \cup (IF hash = 0 /\ Len(e.ks) >= 16
          THEN Tag(Cardinality(SeqSet(e.all)) = Len(e.all), "twin") ELSE {})

Judge == Report(Tags(Ev, reply') \cup InstTags(Ev) \cup TwinTags(Ev), reply')

\* The library did something Amt does not allow at all.
Refuse(tag) ==
    /\ Report({tag}, [op |-> "none"])
    /\ skip' = TRUE
    /\ UNCHANGED vars

----------------------------------------------------------------------------
(* Objects held (C15, C16) *)

Everywhere == UNION {DOMAIN dict[r] : r \in Range(handle) \ {0}}
FrameKeys == {frames[j].k : j \in DOMAIN frames}
LiveVals == {val[c] : c \in UsedCells([r \in Roots |-> IF r \in UsedRoots(handle, frames)
                                                       THEN dict[r] ELSE NoEntries], ptr, frames)} \ {0}

GcTags(e) ==
    LET alive == SeqSet(e.av) IN
    Tag(alive \subseteq LiveVals, "leakv")
    \cup Tag(e.wv => LiveVals \subseteq alive, "freed")
    \cup Tag(\A j \in DOMAIN e.ak :
                \/ e.ak[j][1] \in FrameKeys
                \/ (e.ak[j][1] \in Everywhere /\ e.ak[j][2] >= gone[e.ak[j][1]]), "leakk")

(* The crowd *)

\* Calls for the whole crowd: not judged by themselves, except that they end.
CrowdCall(e) ==
    /\ reply' = [op |-> "Crowd", pan |-> handle[e.h] = 0]
    /\ UNCHANGED state
SeekTags(e) ==
    Tag(e.hits = CrowdOf(e.h).n /\ e.extra = 0, IF IsSet THEN "has" ELSE "look")
    \cup Tag(e.wrong = 0, "lookv")

\* Containers with the same keys use the same memory, up to what the
\* measurement and (under true hashing) the shapes may differ by (C20).
MemSlack == 32768
\* A container is its root, the objects of its entries and the places of its
\* branches, 16 bytes each (C23).  e.c: what the keys and values take as objects
\* {key, value, one word}, none for sets of integers; a key that is not of the
\* crowd has at most a block of 4 places for each level above it.
CompactTags(e) ==
    LET c == CrowdOf(e.h)
        own == IF hash = 0 THEN 8 * Cardinality(Present(e.h)) ELSE 4 * DepSum(hash, Present(e.h))
    IN  IF c.slots < 0 \/ (hash # 0 /\ ~e.x) THEN {}
        ELSE Tag(e.b <= e.c + 16 * (c.slots + own) + MemSlack + e.b \div 64, "compact")
MemTags(e) ==
    IF Present(e.h) # Present(e.g) \/ CrowdOf(e.h).n # CrowdOf(e.g).n
    THEN Assert(FALSE, "Mem of different containers")
    ELSE Tag(e.a <= e.b + (e.b \div (IF hash = 0 THEN 32 ELSE 256)) + MemSlack, "mem") \cup CompactTags(e)
         \* dropped containers leave nothing behind (programmed hashes do)
         \cup (IF e.ref = 0 \/ hash # 0 THEN {}
               ELSE Tag(e.z <= Tr[e.ref].z + 8 * MemSlack + 256 * (i - e.ref), "residue"))

NextCrowd(e) ==
    IF e.e = "reset" THEN [r \in Roots |-> NoCrowd]
    ELSE IF skip THEN crowd
    ELSE IF e.e = "New" THEN [crowd EXCEPT ![handle'[e.h]] = NoCrowd]
    ELSE IF e.e = "Crowd" /\ handle[e.h] # 0
    THEN [crowd EXCEPT ![handle[e.h]] =
            IF e.n = 0 THEN NoCrowd
            ELSE [n |-> e.n, pre |-> e.pre,
                  dep |-> IF e.pre = 0 THEN 0 ELSE CrowdDepth(e.pre, 5, e.stride, 16, e.fork),
                  slots |-> IF e.pre > 0 THEN CrowdSlots(e.pre, 5, e.size, e.stride, 16, 4, e.fork)
                            ELSE IF e.n \in DOMAIN ExpSlots THEN ExpSlots[e.n] ELSE -1]]
    ELSE crowd

(* Hash calls of custom keys (C18) *)

MaxIter(h, k, j) ==   \* most rehashes needed for key j by a call about k
    LET S == Present(h) \cup {k} IN Depth(hash, S, j) \div 16
HashTags(e) ==
    LET cs == e.cs IN
    Tag(\A j \in DOMAIN cs : cs[j][3] = 1, "seed")
    \cup Tag(\A j \in DOMAIN cs : cs[j][1] \in Present(e.h) \cup {e.k}, "hashkey")
    \cup (IF hash = 0 THEN {} ELSE
          Tag(\A j \in DOMAIN cs : cs[j][1] \in Present(e.h) \cup {e.k} =>
                 cs[j][2] \in 0..MaxIter(e.h, e.k, cs[j][1]), "iter")
          \cup \* the first time a count above 0 is used for the key of the call, the one before has been
          Tag(\A j \in DOMAIN cs : cs[j][1] = e.k /\ cs[j][2] > 0 =>
                 \E l \in 1..(j - 1) : cs[l][1] = e.k /\ cs[l][2] = cs[j][2] - 1, "iter"))

----------------------------------------------------------------------------
(* Steps *)

Reset(e) ==
    /\ handle' = [h \in Handles |-> 0]
    /\ dict' = [r \in Roots |-> NoEntries]
    /\ val' = [c \in Cells |-> 0]
    /\ ptr' = [p \in PtrNames |-> 0]
    /\ frames' = << >>
    /\ hash' = IF e.prof = "" THEN 0 ELSE ProfIx[e.prof]
    /\ reply' = [op |-> "Init", pan |-> FALSE]

Forget(p) ==
    /\ ptr' = [ptr EXCEPT ![p] = 0]
    /\ reply' = [op |-> "Forget", p |-> p, pan |-> FALSE]
    /\ UNCHANGED <<handle, dict, val, frames, hash>>

Plain(A) == A /\ skip' = FALSE
Judged(A) == A /\ Judge /\ skip' = FALSE

\* Dep without a known hash assignment: only zero, or the same as before.
DepUnknown(h) ==
    /\ reply' = [op |-> "Dep", h |-> h, sum |-> 0,
                 n |-> IF handle[h] = 0 THEN 0 ELSE Cardinality(Present(h)), pan |-> FALSE]
    /\ UNCHANGED state

Do(e) ==
    CASE e.e = "New"  -> Plain(New(e.h))
      [] e.e = "Copy" -> Plain(Copy(e.h, e.g))
      [] e.e = "Drop" -> Plain(Drop(e.h))
      [] e.e = "Set"  -> Judged(Set(e.h, e.k, e.v))
      [] e.e = "Add"  -> Judged(Add(e.h, e.k))
      [] e.e = "Del"  -> Judged(Del(e.h, e.k))
      [] e.e = "ModA" -> Judged(ModA(e.h, e.k, e.v))
      [] e.e = "Get"  -> Judged(Get(e.h, e.k))
      [] e.e = "Val"  -> Judged(Val(e.h, e.k))
      [] e.e = "Ptr"  -> Judged(Ptr(e.h, e.k))
      [] e.e = "Has"  -> Judged(Has(e.h, e.k))
      [] e.e = "Len"  -> Judged(LenOp(e.h))
      [] e.e = "Dep"  -> IF hash = 0 \/ ~e.x THEN Judged(DepUnknown(e.h)) ELSE Judged(DepOp(e.h))
      [] e.e = "Nil"  -> Judged(NilOp(e.h))
      [] e.e = "AllA" -> Judged(AllA(e.h))
      [] e.e = "AllN" -> Judged(AllN(e.h, e.lim))
      [] e.e = "AllW" -> Judged(AllW(e.h, e.w))
      [] e.e = "Keep" -> Judged(Keep(e.h, e.k, e.p))
      [] e.e = "Load" -> Judged(Load(e.p))
      [] e.e = "Store" -> Plain(Store(e.p, e.v))
      [] e.e = "SamePtr" -> Judged(SamePtr(e.h, e.k, e.p))
      [] e.e = "Forget" -> Plain(Forget(e.p))
      [] e.e = "Heap" -> Plain(Forget(1))
      [] e.e = "ModBegin" -> Judged(ModBegin(e.h, e.k))
      [] e.e = "ModEnd" -> Plain(ModEnd)
      [] e.e = "ModPanic" -> Plain(ModPanic)
      [] e.e = "ModNoCall" -> Refuse("modcalls")
      [] e.e = "ModTwice" -> Refuse("modcalls")
      [] e.e = "PanicLost" -> Refuse("cbpanic")
      [] e.e = "CbLoad" -> Judged(CbLoad)
      [] e.e = "CbStore" -> Plain(CbStore(e.v))
      [] e.e = "CbKeep" -> Plain(CbKeep(e.p))
      [] e.e = "AllBegin" -> Judged(AllBegin(e.h))
      [] e.e = "AllNext" -> IF e.k \notin Keys THEN Refuse("key")
                            ELSE IF e.k \notin Top.todo THEN Refuse("all")
                            ELSE Judged(AllNext(e.k))
      [] e.e = "AllCont" -> Plain(AllCont)
      [] e.e = "AllStop" -> Plain(AllStop)
      [] e.e = "AllPanic" -> Plain(AllPanic)
      [] e.e = "AllExtra" -> Refuse("stop")
      [] e.e = "AllEnd" -> IF Top.todo = {} THEN Plain(AllEnd) ELSE Refuse("all")
      [] e.e = "gc" -> /\ Report(GcTags(e), [op |-> "gc", live |-> LiveVals, gone |-> gone, held |-> Everywhere])
                       /\ UNCHANGED vars /\ skip' = FALSE
      [] e.e = "hash" -> /\ Report(HashTags(e), [op |-> "hash"])
                         /\ UNCHANGED vars /\ skip' = FALSE
      [] e.e = "Crowd" -> Judged(CrowdCall(e))
      [] e.e = "Seek" -> /\ Report(SeekTags(e), [op |-> "Seek", crowd |-> CrowdOf(e.h)])
                         /\ UNCHANGED vars /\ skip' = FALSE
      [] e.e = "Mem" -> /\ Report(MemTags(e), [op |-> "Mem", keys |-> Present(e.h), crowd |-> CrowdOf(e.h)])
                        /\ UNCHANGED vars /\ skip' = FALSE
      [] e.e = "Many" -> /\ Report(ManyTags(e), [op |-> "Many"])
                         /\ UNCHANGED vars /\ skip' = FALSE
      [] e.e = "crash" -> Refuse("crash")

\* When a key was last in no container any more.
Gone(e) ==
    IF e.e = "reset" THEN [k \in Keys |-> 0]
    ELSE IF e.e = "Del" /\ ~skip
    THEN LET rs == Range(handle') \ {0} IN
         IF \A r \in rs : e.k \notin DOMAIN dict'[r] THEN [gone EXCEPT ![e.k] = i] ELSE gone
    ELSE IF e.e \in {"New", "Drop", "Copy"}
    THEN [k \in Keys |-> IF \A r \in Range(handle') \ {0} : k \notin DOMAIN dict'[r] THEN i ELSE gone[k]]
    ELSE gone

TraceNext ==
    /\ i <= Len(Tr)
    /\ i' = i + 1
    /\ IF Ev.e \in {"start", "end"} THEN UNCHANGED vars /\ skip' = TRUE
       ELSE IF Ev.e = "reset" THEN Reset(Ev) /\ skip' = FALSE
       ELSE IF skip THEN UNCHANGED vars /\ skip' = skip
       ELSE Do(Ev)
    /\ gone' = Gone(Ev)
    /\ crowd' = NextCrowd(Ev)
    /\ inst' = NextInst(Ev)

TraceInit ==
    /\ InitState /\ InitNil /\ hash = 0
    /\ i = 1 /\ skip = FALSE /\ gone = [k \in Keys |-> 0]
    /\ crowd = [r \in Roots |-> NoCrowd] /\ inst = NoInst

TraceSpec == TraceInit /\ [][TraceNext]_tvars

TraceView == i

\* Every event was taken.
Consumed == PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF " \o ToString(Len(Tr)))
=============================================================================
