SPECIFICATION Spec
CONSTANTS
  Depth = 1
  Reach = 2
  Alphabet = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 65, 96, 127, 128, 129, 130, 160, 192, 193, 224, 240, 254, 255}
INVARIANTS Outcome Accepted Empty
PROPERTY Settled
CHECK_DEADLOCK FALSE
