SPECIFICATION TraceSpec
VIEW TraceView
CHECK_DEADLOCK FALSE
CONSTANTS
 Keys <- TraceKeys
 Handles <- TraceHandles
 Roots <- TraceRoots
 IsSet <- TraceIsSet
 Lcp <- TraceLcp
 Vals = {0}
 PtrNames = {1,2,3,4,5,6}
 Cells <- TraceCells
 MaxFrames = 8
 Normalise = FALSE
 Ops = {}
POSTCONDITION Consumed
