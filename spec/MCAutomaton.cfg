SPECIFICATION Spec
INVARIANTS Complete Sound
CHECK_DEADLOCK FALSE
CONSTANTS NStates = 2
NSyms = 2
MaxLen = 3
