SPECIFICATION Spec
CONSTANTS
  Depth = 3
  Reach = 5
  Alphabet = {0, 1, 2, 64, 128, 255}
INVARIANTS Outcome Accepted Empty
PROPERTY Settled
CHECK_DEADLOCK FALSE
