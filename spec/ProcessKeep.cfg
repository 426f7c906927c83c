SPECIFICATION Spec
CONSTANTS Ns = {"A", "B", "C"}
          MaxP = 2
          Keep = TRUE
INVARIANTS Emitted Honest
CHECK_DEADLOCK FALSE
