SPECIFICATION Spec
CONSTANTS
  Depth = 2
  Reach = 3
  Alphabet = {0, 1, 2, 64, 128, 129, 192, 255}
INVARIANTS Outcome Accepted Empty
PROPERTY Settled
CHECK_DEADLOCK FALSE
