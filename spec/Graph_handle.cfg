SPECIFICATION GSpec
VIEW GView
CHECK_DEADLOCK FALSE
CONSTANTS Keys = {1,2} Vals = {0,1} Handles = {1,2,3} Roots = {1,2,3} PtrNames = {} Cells = {1,2,3,4,5,6,7} IsSet = FALSE MaxFrames = 0 Normalise = TRUE StartNil = TRUE
 Ops = {"New","Copy","Drop","Set","ModA","Del","Get","Val","Ptr","Len","Nil","AllA","AllN","AllW"}
INVARIANTS First TypeOK CellsDistinct FramesOK
ACTION_CONSTRAINT Edge
