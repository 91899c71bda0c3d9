SPECIFICATION Spec
SYMMETRY Sym
CHECK_DEADLOCK FALSE
CONSTANTS Procs = {p1, p2} Keys={1,2,3,4} Chunk=2 MaxLen=3 Dev="None"
 Digs <- MCDigs
INVARIANTS NoRace NoWrite SameAsAlone
PROPERTIES ReadersChangeNothing
