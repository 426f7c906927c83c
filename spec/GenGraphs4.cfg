SPECIFICATION GSpec
CONSTANTS Ns = {"A", "B", "C", "D"}
          MaxP = 0
          Keep = FALSE
INVARIANT Done
CHECK_DEADLOCK FALSE
