SPECIFICATION Spec
INVARIANT Agree
INVARIANT ShortestRight
CONSTANTS Letters = {1, 2}
 MaxLen = 4
 Depth = 2
