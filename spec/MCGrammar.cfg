SPECIFICATION Spec
INVARIANT Theory
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 4
 Every = 1
 From = 0
