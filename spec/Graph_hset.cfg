SPECIFICATION GSpec
VIEW GView
CHECK_DEADLOCK FALSE
CONSTANTS Keys = {1,2,3} Vals = {0} Handles = {1,2,3} Roots = {1,2,3} PtrNames = {} Cells = {1,2,3,4,5,6,7,8,9,10} IsSet = TRUE MaxFrames = 0 Normalise = TRUE StartNil = TRUE
 Ops = {"New","Copy","Drop","Add","Del","Has","Len","Nil","AllA","AllN"}
INVARIANTS First TypeOK CellsDistinct FramesOK
ACTION_CONSTRAINT Edge
