SPECIFICATION MCSpec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Keys={1,2} Vals={0,1} Handles={1} Roots={1} PtrNames={} Cells={1,2,3,4} IsSet=FALSE MaxFrames=1
 W=2 Block=1 Chunk=2 Inline=FALSE JunkAll=FALSE NDigits=3 Dev={}
 Junk <- JunkDef
 Ops={"Set","Del","ModA","Get","Len","Dep","AllA","ModBegin","CbLoad","CbStore","AllBegin"}
INVARIANTS LenExact DepExact Findable OrderCanonical Canonical NothingRetained Fits
PROPERTIES Refines
