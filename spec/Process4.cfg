SPECIFICATION Spec
CONSTANTS Ns = {"A", "B", "C", "D"}
          MaxP = 1
          Keep = FALSE
INVARIANTS Emitted Honest
CHECK_DEADLOCK FALSE
