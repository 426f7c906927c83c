SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Reach = 2
  Alphabet <- Octet
INVARIANTS Outcome Accepted Empty
PROPERTY Settled
CHECK_DEADLOCK FALSE
