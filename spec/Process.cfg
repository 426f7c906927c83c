SPECIFICATION Spec
CONSTANTS Ns = {"A", "B", "C"}
          MaxP = 2
          Keep = FALSE
INVARIANTS Emitted Honest
CHECK_DEADLOCK FALSE
