SPECIFICATION GSpec
VIEW GView
CHECK_DEADLOCK FALSE
CONSTANTS Keys = {1,2,3,4,5,6,7,8,9,10} Vals = {0} Handles = {1} Roots = {1} PtrNames = {} Cells = {1,2,3,4,5,6,7,8,9,10,11} IsSet = TRUE MaxFrames = 0 Normalise = TRUE StartNil = FALSE
 Ops = {"Add","Del","Has","Len","AllA","AllN"}
INVARIANTS First TypeOK CellsDistinct FramesOK
ACTION_CONSTRAINT Edge
