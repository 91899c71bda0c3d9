SPECIFICATION Spec
CONSTRAINT Few
CHECK_DEADLOCK FALSE
CONSTANTS Handles={1,2} Keys={1,2} MaxRoots=3 Dev="None"
INVARIANTS OwnOrder OneOrder
