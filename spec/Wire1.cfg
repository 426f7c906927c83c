SPECIFICATION Spec
CONSTANT Depth = 1
INVARIANTS RoundTrip PrefixRejected Compatible DefaultsInvisible SameDict Octets
CHECK_DEADLOCK FALSE
