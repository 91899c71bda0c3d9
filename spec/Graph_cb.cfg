SPECIFICATION GSpec
VIEW GView
CHECK_DEADLOCK FALSE
CONSTANTS Keys = {1,2,3} Vals = {0,1} Handles = {1} Roots = {1} PtrNames = {} Cells = {1,2,3,4,5,6} IsSet = FALSE MaxFrames = 2 Normalise = TRUE StartNil = FALSE
 Ops = {"Set","Del","Get","Ptr","Len","AllA","ModBegin","CbLoad","CbStore","AllBegin"}
INVARIANTS First TypeOK CellsDistinct FramesOK
ACTION_CONSTRAINT Edge
