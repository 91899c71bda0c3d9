SPECIFICATION MCSpec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Keys={1,2,3} Vals={0} Handles={1} Roots={1} PtrNames={} Cells={1,2,3} IsSet=TRUE MaxFrames=0
 W=2 Block=1 Chunk=2 Inline=TRUE JunkAll=TRUE NDigits=3 Dev={}
 Junk <- JunkDef
 Ops={"Add","Del","Has","Len","Dep","AllA"}
INVARIANTS LenExact DepExact Findable OrderCanonical Canonical NothingRetained Fits
PROPERTIES Refines
