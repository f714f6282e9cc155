SPECIFICATION SpecT
INVARIANT Conforms
