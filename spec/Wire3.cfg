SPECIFICATION Spec
CONSTANT Depth = 3
INVARIANTS RoundTrip PrefixRejected Compatible DefaultsInvisible SameDict Octets
CHECK_DEADLOCK FALSE
