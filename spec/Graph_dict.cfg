SPECIFICATION GSpec
VIEW GView
CHECK_DEADLOCK FALSE
CONSTANTS Keys = {1,2,3,4,5,6} Vals = {0,1} Handles = {1} Roots = {1} PtrNames = {} Cells = {1,2,3,4,5,6,7} IsSet = FALSE MaxFrames = 0 Normalise = TRUE StartNil = FALSE
 Ops = {"Set","ModA","Del","AllW","Get","Val","Ptr","Len","AllA","AllN"}
INVARIANTS First TypeOK CellsDistinct FramesOK
ACTION_CONSTRAINT Edge
