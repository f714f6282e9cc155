SPECIFICATION Spec
INVARIANTS OneAhead NothingBehindEnd TokensInOrder AllShown EagerlyShown Sound ErrorRight ErrorInTime Derivation PostOrder
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS MaxLen = 7
