SPECIFICATION Spec
CONSTRAINT Few
CHECK_DEADLOCK FALSE
CONSTANTS Alphabet={0,1} MaxKey=3 Seeds={1,2} MaxIter=4 Instances={1,2} Dev="None"
INVARIANTS Functional DistinctKeys DistinctSeeds DistinctIters
