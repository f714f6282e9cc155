SPECIFICATION SpecQ
INVARIANT Conforms
