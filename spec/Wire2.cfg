SPECIFICATION Spec
CONSTANT Depth = 2
INVARIANTS RoundTrip PrefixRejected Compatible DefaultsInvisible SameDict Octets
CHECK_DEADLOCK FALSE
