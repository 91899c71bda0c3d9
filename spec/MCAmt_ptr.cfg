SPECIFICATION MCSpec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Keys={1,2} Vals={0,1} Handles={1} Roots={1,2} PtrNames={1} Cells={1,2,3,4,5} IsSet=FALSE MaxFrames=1 Normalise=TRUE StartNil=FALSE
 Ops={"Set","ModA","Del","AllW","Get","Val","Ptr","Len","Dep","AllA","AllN","Keep","SamePtr","Load","Store","ModBegin","AllBegin","CbLoad","CbStore","CbKeep"}
INVARIANTS TypeOK CellsDistinct FramesOK
PROPERTIES OneEntryPerStep ReadsStutter PointersStable NoReuse PanicIsNoOp
