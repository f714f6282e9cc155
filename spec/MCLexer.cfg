SPECIFICATION Spec
INVARIANTS TokensRight OneAhead ErrorRight EndRight
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 6
