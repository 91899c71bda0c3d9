SPECIFICATION MCSpec
VIEW View
CHECK_DEADLOCK FALSE
CONSTANTS Keys={1,2} Vals={0,1} Handles={1,2} Roots={1,2} PtrNames={} Cells={1,2,3,4,5} IsSet=FALSE MaxFrames=0 Normalise=TRUE StartNil=TRUE
 Ops={"New","Copy","Drop","Set","ModA","Del","Get","Val","Ptr","Len","Dep","Nil","AllA"}
INVARIANTS TypeOK CellsDistinct FramesOK
PROPERTIES OneEntryPerStep ReadsStutter PointersStable NoReuse PanicIsNoOp
